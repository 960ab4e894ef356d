From c2253686523c9959a383261918720a9f87cc0207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 01/66] fix: treat the character after a short octal escape as
 an ordinary string character

---
 src/pdfmm/base/PdfTokenizer.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..a3edf87 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -509,28 +509,15 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
 
                 if (!isOctalChar(ch))
                 {
-                    if (ch == ')')
-                    {
-                        // Handle end of string while reading octal code
-                        // NOTE: The octal value is added outside of the loop
-                        break;
-                    }
-
                     // No octal character anymore,
                     // so the octal sequence must be ended
                     // and the character has to be treated as normal character!
                     m_charBuffer.push_back(octValue);
-
-                    if (ch != '\\')
-                    {
-                        m_charBuffer.push_back(ch);
-                        escape = false;
-                    }
-
+                    escape = false;
                     octEscape = false;
                     octCharCount = 0;
                     octValue = 0;
-                    continue;
+                    goto RawChar;
                 }
 
                 octValue <<= 3;
@@ -569,6 +556,7 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
         }
         else
         {
+        RawChar:
             // Handle raw characters
             if (balanceCount == 0 && ch == ')')
                 break;
-- 
2.43.0


From eb5586e3975032661fde5da5f43ea73d9bc910b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 02/66] fix: keep the character after an unknown escape in
 literal strings

---
 src/pdfmm/base/PdfTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index a3edf87..8e651ef 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -546,9 +546,9 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
                 if (ch != '\n' && ch != '\r')
                 {
                     // Handle plain escape sequences
+                    // NOTE: The backslash is ignored before any other character
                     char escapedCh = getEscapedCharacter(ch);
-                    if (escapedCh != '\0')
-                        m_charBuffer.push_back(escapedCh);
+                    m_charBuffer.push_back(escapedCh == '\0' ? ch : escapedCh);
                 }
 
                 escape = false;
-- 
2.43.0


From 13ae04bb4e223f17d6efbde33356ebba94ba91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 03/66] fix: take CRLF as one line continuation in literal
 strings

---
 src/pdfmm/base/PdfTokenizer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 8e651ef..a906a51 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -542,8 +542,16 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
             }
             else
             {
-                // Ignore end of line characters when reading escaped sequences
-                if (ch != '\n' && ch != '\r')
+                // Ignore end of line markers when reading escaped sequences
+                if (ch == '\r')
+                {
+                    // A carriage return and a following line
+                    // feed are a single end of line marker
+                    char next;
+                    if (device.Peek(next) && next == '\n')
+                        (void)device.ReadChar();
+                }
+                else if (ch != '\n')
                 {
                     // Handle plain escape sequences
                     // NOTE: The backslash is ignored before any other character
-- 
2.43.0


From 8f2c65adfd5352f14b41c31f3b1a6949ffed22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 04/66] fix: do not lose the last number when two numbers end
 the input

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index a906a51..3246cde 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -337,6 +337,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 if (!gotToken)
                 {
                     // No third token, so it can't be a reference
+                    this->EnqueueToken(tmp, secondTokenType);
                     return PdfLiteralDataType::Number;
                 }
                 if (thirdTokenType == PdfTokenType::Literal &&
-- 
2.43.0


From 515e6f91736b18183f4f9c409682d09dabe4896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 05/66] fix: accept numbers with an explicit plus sign

---
 src/pdfmm/base/PdfTokenizer.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 3246cde..2e4a70d 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -24,6 +24,7 @@ using namespace mm;
 static char getEscapedCharacter(char ch);
 static void readHexString(InputStreamDevice& device, charbuff& buffer);
 static bool isOctalChar(char ch);
+static string_view skipPlusSign(const string_view& token);
 
 PdfTokenizer::PdfTokenizer(bool readReferences)
     : PdfTokenizer(std::make_shared<charbuff>(BufferSize), readReferences)
@@ -197,7 +198,8 @@ int64_t PdfTokenizer::ReadNextNumber(InputStreamDevice& device)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Expected number");
 
     int64_t num;
-    if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+    auto numToken = skipPlusSign(token);
+    if (std::from_chars(numToken.data(), numToken.data() + numToken.size(), num).ec != std::errc())
     {
         // Don't consume the token
         this->EnqueueToken(token, tokenType);
@@ -279,10 +281,11 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 start++;
             }
 
+            auto numToken = skipPlusSign(token);
             if (dataType == PdfLiteralDataType::Real)
             {
                 double val;
-                if (std::from_chars(token.data(), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
+                if (std::from_chars(numToken.data(), numToken.data() + numToken.length(), val, chars_format::fixed).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -295,7 +298,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+                if (std::from_chars(numToken.data(), numToken.data() + numToken.size(), num).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -812,3 +815,12 @@ bool isOctalChar(char ch)
             return false;
     }
 }
+
+// Numbers may have an explicit plus sign, which std::from_chars doesn't accept
+string_view skipPlusSign(const string_view& token)
+{
+    if (token.size() > 1 && token[0] == '+' && (isdigit((unsigned char)token[1]) || token[1] == '.'))
+        return token.substr(1);
+
+    return token;
+}
-- 
2.43.0


From 97bc4872d101b58f1fc5bf51fa4570cbcb2567ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 06/66] fix: read integers beyond the 64 bit range as reals,
 and empty names before comments

---
 src/pdfmm/base/PdfTokenizer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 2e4a70d..d8b97e5 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -298,7 +298,16 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(numToken.data(), numToken.data() + numToken.size(), num).ec != std::errc())
+                double val;
+                auto ec = std::from_chars(numToken.data(), numToken.data() + numToken.size(), num).ec;
+                if (ec == std::errc::result_out_of_range
+                    && std::from_chars(numToken.data(), numToken.data() + numToken.size(), val, chars_format::fixed).ec == std::errc())
+                {
+                    // Integers beyond the implementation limits are converted to reals
+                    variant = PdfVariant(val);
+                    return PdfLiteralDataType::Real;
+                }
+                if (ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -623,7 +632,7 @@ void PdfTokenizer::ReadName(InputStreamDevice& device, PdfVariant& variant)
     // 10 0 obj / endobj
     // which stupid but legal PDF
     char ch;
-    if (!device.Peek(ch) || IsWhitespace(ch))
+    if (!device.Peek(ch) || IsWhitespace(ch) || ch == '%')
     {
         // We have an empty PdfName
         // NOTE: Delimeters are handled correctly by tryReadNextToken
-- 
2.43.0


From 428717bfcd7b1d194b59977b2a26ad09d58d7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 07/66] fix: store text that looks like a byte order marker in
 PdfDocEncoding as Unicode

---
 src/pdfmm/base/PdfString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..ce7c46c 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -313,9 +313,13 @@ void PdfString::initFromUtf8String(const string_view& view)
     }
 
     bool isAsciiEqual;
-    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual))
+    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual)
+        && (isAsciiEqual || getEncoding(mm::ConvertUTF8ToPdfDocEncoding(view)) == StringEncoding::PdfDocEncoding))
         m_data.reset(new StringData{ isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding, charbuff(view) });
     else
+        // NOTE: This includes text that would be taken for an
+        // Unicode string because its PdfDocEncoding representation
+        // starts with a byte order marker
         m_data.reset(new StringData{ PdfStringState::Unicode, charbuff(view) });
 }
 
-- 
2.43.0


From 008d2c7b6ef0f67ed07d6f594f76d83a772093f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 08/66] fix: do not lose the data of unfiltered streams when
 saving

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..52c37d9 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -251,7 +251,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
-            stream.MoveFrom(*m_Stream);
+            m_Stream->MoveFrom(stream);
         }
 
         // Set length if it's not handled by the underlying provider
-- 
2.43.0


From a1804d727fb609e58766bf2ae2fb1f1d1f05cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 09/66] fix: converting an object to text does not unmark its
 changes

---
 src/pdfmm/base/PdfObject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 52c37d9..ce2b686 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -544,7 +544,11 @@ void PdfObject::ToString(string& ret) const
     ret.clear();
     StringStreamDevice device(ret);
     charbuff buffer;
+    // NOTE: Converting to string doesn't save the object
+    bool isDirty = m_IsDirty;
     Write(device, PdfWriteFlags::None, nullptr, buffer);
+    if (isDirty)
+        const_cast<PdfObject&>(*this).setDirty();
 }
 
 bool PdfObject::GetBool() const
-- 
2.43.0


From be971e7523bb7725cddd19a52ad9e54214cf03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 10/66] fix: assignment of objects and values nested in each
 other, and of streams

---
 src/pdfmm/base/PdfObject.cpp  | 24 +++++++++++++++++++++---
 src/pdfmm/base/PdfVariant.cpp | 15 ++++++++-------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index ce2b686..062c13f 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -393,6 +393,8 @@ void PdfObject::moveStreamFrom(PdfObject& obj)
 {
     obj.DelayedLoadStream();
     m_Stream = std::move(obj.m_Stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
 }
 
 void PdfObject::EnableDelayedLoading()
@@ -431,19 +433,35 @@ void PdfObject::SetParent(PdfDataContainer& parent)
 // Objects being assigned always keep current ownership
 void PdfObject::assign(const PdfObject& rhs)
 {
+    if (this == &rhs)
+        return;
+
     rhs.DelayedLoad();
-    m_Variant = rhs.m_Variant;
+    // NOTE: "rhs" may be a child or the parent of this object: take
+    // the copy first and keep the previous value until the end
+    PdfVariant copied(rhs.m_Variant);
+    PdfVariant previous(std::move(m_Variant));
+    m_Variant = std::move(copied);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
-    copyStreamFrom(rhs);
     m_IsDelayedLoadStreamDone = true;
+    if (rhs.HasStream())
+        copyStreamFrom(rhs);
+    else
+        m_Stream = nullptr;
 }
 
 // NOTE: Don't move parent document/container and indirect reference.
 // Objects being assigned always keep current ownership
 void PdfObject::moveFrom(PdfObject& rhs)
 {
-    rhs.DelayedLoad();
+    if (this == &rhs)
+        return;
+
+    rhs.DelayedLoadStream();
+    // NOTE: "rhs" may be a child of this object, keep the previous
+    // value until the assignment is completed
+    PdfVariant previous(std::move(m_Variant));
     m_Variant = std::move(rhs.m_Variant);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..1a76be1 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -239,18 +239,19 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
+    // NOTE: "rhs" may be this same value or a child of it
+    PdfVariant temp(rhs);
+    std::swap(m_Data, temp.m_Data);
+    std::swap(m_DataType, temp.m_DataType);
     return *this;
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
-    rhs.m_DataType = PdfDataType::Null;
-    rhs.m_Data = { };
+    // NOTE: "rhs" may be this same value or a child of it
+    PdfVariant temp(std::move(rhs));
+    std::swap(m_Data, temp.m_Data);
+    std::swap(m_DataType, temp.m_DataType);
     return *this;
 }
 
-- 
2.43.0


From 00c25f276089a18804536a65f8aaacd970e6232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 11/66] fix: inequality of objects and values, equality with
 null

---
 src/pdfmm/base/PdfDictionary.cpp | 4 ++--
 src/pdfmm/base/PdfObject.cpp     | 4 ++--
 src/pdfmm/base/PdfVariant.cpp    | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..1d1135f 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -51,8 +51,8 @@ bool PdfDictionary::operator==(const PdfDictionary& rhs) const
 
 bool PdfDictionary::operator!=(const PdfDictionary& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     // We don't check owner
     return m_Map != rhs.m_Map;
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 062c13f..cb20dc5 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -859,8 +859,8 @@ bool PdfObject::operator==(const PdfObject& rhs) const
 
 bool PdfObject::operator!=(const PdfObject& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     if (m_IndirectReference.IsIndirect())
     {
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 1a76be1..0ac92a2 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -406,7 +406,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Equality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType == PdfDataType::Null;
+            return rhs.m_DataType == PdfDataType::Null;
         case PdfDataType::Unknown:
             return false;
         default:
@@ -416,8 +416,8 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
 
 bool PdfVariant::operator!=(const PdfVariant& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     switch (m_DataType)
     {
@@ -489,7 +489,7 @@ bool PdfVariant::operator!=(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Disequality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType != PdfDataType::Null;
+            return rhs.m_DataType != PdfDataType::Null;
         case PdfDataType::Unknown:
             return true;
         default:
-- 
2.43.0


From 53313b8ca842d97d7fa9f656c0e9f71d0ee396b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 12/66] fix: assigning a dictionary or stream marks the owner
 as changed

---
 src/pdfmm/base/PdfDictionary.cpp   | 16 ++++++++++++++--
 src/pdfmm/base/PdfObjectStream.cpp |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 1d1135f..e620d76 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -28,15 +28,27 @@ PdfDictionary::PdfDictionary(PdfDictionary&& rhs) noexcept
 
 PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
-    m_Map = rhs.m_Map;
+    if (this == &rhs)
+        return *this;
+
+    // NOTE: "rhs" may be a child of this dictionary
+    PdfDictionaryMap map(rhs.m_Map);
+    m_Map.swap(map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
 PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
-    m_Map = std::move(rhs.m_Map);
+    if (this == &rhs)
+        return *this;
+
+    // NOTE: "rhs" may be a child of this dictionary
+    PdfDictionaryMap map(std::move(rhs.m_Map));
+    m_Map.swap(map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f29f152..10645ab 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -201,6 +201,7 @@ size_t PdfObjectStream::GetLength() const
 void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     if (!m_Provider->TryMoveFrom(std::move(*rhs.m_Provider)))
     {
         auto stream = rhs.GetInputStream(true);
@@ -240,6 +241,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
 void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     if (!m_Provider->TryCopyFrom(*rhs.m_Provider))
     {
         auto stream = rhs.GetInputStream(true);
-- 
2.43.0


From 9fcb72b644f0c0b872ae7ce1a077041b76a84241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 13/66] fix: array elements keep their parent when relocated,
 assignments mark the owner as changed

---
 src/pdfmm/base/PdfArray.cpp | 36 +++++++++++++++++++++++++++---------
 src/pdfmm/base/PdfArray.h   |  5 +----
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..5fab384 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -65,15 +65,27 @@ PdfObject& PdfArray::MustFindAt(unsigned idx)
 
 PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
-    m_Objects = rhs.m_Objects;
+    if (this == &rhs)
+        return *this;
+
+    // NOTE: "rhs" may be a child of this array
+    PdfArrayList objects(rhs.m_Objects);
+    m_Objects.swap(objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
 PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
-    m_Objects = std::move(rhs.m_Objects);
+    if (this == &rhs)
+        return *this;
+
+    // NOTE: "rhs" may be a child of this array
+    PdfArrayList objects(std::move(rhs.m_Objects));
+    m_Objects.swap(objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -237,8 +249,13 @@ PdfObject& PdfArray::add(PdfObject&& obj)
 
 PdfArray::iterator PdfArray::insertAt(const iterator& pos, PdfObject&& obj)
 {
+    // NOTE: Objects that are relocated lose their parent
+    bool relocate = pos != m_Objects.end() || m_Objects.size() == m_Objects.capacity();
     auto ret = m_Objects.emplace(pos, std::move(obj));
-    ret->SetParent(*this);
+    if (relocate)
+        setChildrenParent();
+    else
+        ret->SetParent(*this);
     return ret;
 }
 
@@ -299,12 +316,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 {
     size_t currentSize = m_Objects.size();
     m_Objects.resize(count, val);
-    for (size_t i = currentSize; i < count; i++)
-    {
-        auto& obj = m_Objects[i];
-        obj.SetParent(*this);
-    }
-
+    setChildrenParent();
     if (currentSize != count)
         SetDirty();
 }
@@ -312,6 +324,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 void PdfArray::Reserve(unsigned n)
 {
     m_Objects.reserve(n);
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::operator[](size_type idx)
@@ -370,7 +383,11 @@ void PdfArray::resize(size_t size)
     if (size > numeric_limits<unsigned>::max())
         throw length_error("Too big size");
 #endif
+    size_t currentSize = m_Objects.size();
     m_Objects.resize(size);
+    setChildrenParent();
+    if (currentSize != size)
+        SetDirty();
 }
 
 void PdfArray::reserve(size_t size)
@@ -380,6 +397,7 @@ void PdfArray::reserve(size_t size)
         throw length_error("Too big size");
 #endif
     m_Objects.reserve(size);
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::front()
diff --git a/src/pdfmm/base/PdfArray.h b/src/pdfmm/base/PdfArray.h
index 0b65b56..f081400 100644
--- a/src/pdfmm/base/PdfArray.h
+++ b/src/pdfmm/base/PdfArray.h
@@ -379,15 +379,12 @@ void PdfArray::insert(const PdfArray::iterator& pos,
     const InputIterator& first,
     const InputIterator& last)
 {
-    auto document = GetObjectDocument();
     InputIterator it1 = first;
     iterator it2 = pos;
     for (; it1 != last; it1++, it2++)
-    {
         it2 = m_Objects.insert(it2, *it1);
-        it2->SetDocument(document);
-    }
 
+    setChildrenParent();
     SetDirty();
 }
 
-- 
2.43.0


From 249f2ae62b0299f301f11415c77c225b402b1d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 14/66] fix: find objects by exact reference when replacing, in
 logarithmic time

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 27 +++++++-----------------
 src/pdfmm/base/PdfIndirectObjectList.h   | 11 +++++++---
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..c264cc7 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -65,7 +65,6 @@ private:
 PdfIndirectObjectList::PdfIndirectObjectList() :
     m_Document(nullptr),
     m_CanReuseObjectNumbers(true),
-    m_Objects(CompareObject),
     m_ObjectCount(0),
     m_StreamFactory(nullptr)
 {
@@ -74,7 +73,6 @@ PdfIndirectObjectList::PdfIndirectObjectList() :
 PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document) :
     m_Document(&document),
     m_CanReuseObjectNumbers(true),
-    m_Objects(CompareObject),
     m_ObjectCount(1),
     m_StreamFactory(nullptr)
 {
@@ -83,7 +81,6 @@ PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document) :
 PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document, const PdfIndirectObjectList& rhs)  :
     m_Document(&document),
     m_CanReuseObjectNumbers(rhs.m_CanReuseObjectNumbers),
-    m_Objects(CompareObject),
     m_ObjectCount(rhs.m_ObjectCount),
     m_FreeObjects(rhs.m_FreeObjects),
     m_unavailableObjects(rhs.m_unavailableObjects),
@@ -125,8 +122,8 @@ PdfObject& PdfIndirectObjectList::MustGetObject(const PdfReference& ref) const
 
 PdfObject* PdfIndirectObjectList::GetObject(const PdfReference& ref) const
 {
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         return nullptr;
 
     return *it;
@@ -139,8 +136,8 @@ unique_ptr<PdfObject> PdfIndirectObjectList::RemoveObject(const PdfReference& re
 
 unique_ptr<PdfObject> PdfIndirectObjectList::RemoveObject(const PdfReference& ref, bool markAsFree)
 {
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         return nullptr;
 
     return removeObject(it, markAsFree);
@@ -156,14 +153,16 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
     if (obj == nullptr)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
+    auto it = m_Objects.find(ref);
     if (it == m_Objects.end())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
+    obj->SetDocument(m_Document);
     obj->SetIndirectReference(ref);
+    obj->setDirty();
     pushObject(node, obj);
     return ret;
 }
@@ -348,7 +347,7 @@ void PdfIndirectObjectList::CollectGarbage()
     unordered_set<PdfReference> referencedOjects;
     visitObject(m_Document->GetTrailer().GetObject(), referencedOjects);
     vector<PdfObject*> objectsToDelete;
-    ObjectList newlist(CompareObject);
+    ObjectList newlist;
     for (PdfObject* obj : m_Objects)
     {
         auto& ref = obj->GetIndirectReference();
@@ -532,13 +531,3 @@ size_t PdfIndirectObjectList::size() const
 {
     return m_Objects.size();
 }
-
-bool PdfIndirectObjectList::CompareObject(const PdfObject* p1, const PdfObject* p2)
-{
-    return *p1 < *p2;
-}
-
-bool PdfIndirectObjectList::CompareReference(const PdfObject* obj, const PdfReference& ref)
-{
-    return obj->GetIndirectReference() < ref;
-}
diff --git a/src/pdfmm/base/PdfIndirectObjectList.h b/src/pdfmm/base/PdfIndirectObjectList.h
index 5ccba27..5836bb8 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.h
+++ b/src/pdfmm/base/PdfIndirectObjectList.h
@@ -38,11 +38,16 @@ class PDFMM_API PdfIndirectObjectList final
     friend class PdfImmediateWriter;
 
 private:
-    static bool CompareObject(const PdfObject* p1, const PdfObject* p2);
-    static bool CompareReference(const PdfObject* obj, const PdfReference& ref);
+    struct ObjectComparator
+    {
+        using is_transparent = std::true_type;
+        bool operator()(const PdfObject* lhs, const PdfObject* rhs) const { return *lhs < *rhs; }
+        bool operator()(const PdfObject* lhs, const PdfReference& rhs) const { return lhs->GetIndirectReference() < rhs; }
+        bool operator()(const PdfReference& lhs, const PdfObject* rhs) const { return lhs < rhs->GetIndirectReference(); }
+    };
 
 private:
-    using ObjectList = std::set<PdfObject*, decltype(CompareObject)*>;
+    using ObjectList = std::set<PdfObject*, ObjectComparator>;
 
 public:
     // An incomplete set of container typedefs, just enough to handle
-- 
2.43.0


From 26186997105d3c6212c0d0908ba790a5899240d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 15/66] fix: object numbers beyond 65535 and numbers that
 reached the last generation

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index c264cc7..d6fb29c 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -191,7 +191,7 @@ PdfReference PdfIndirectObjectList::getNextFreeObject()
     }
 
     // If no free objects are available, create a new object with generation 0
-    uint16_t nextObjectNum = static_cast<uint16_t>(m_ObjectCount);
+    uint32_t nextObjectNum = m_ObjectCount;
     while (true)
     {
         if ((size_t)(nextObjectNum + 1) == MaxReserveSize)
@@ -273,7 +273,7 @@ int32_t PdfIndirectObjectList::tryAddFreeObject(uint32_t objnum, uint32_t gennum
     // NOTE: gennum is uint32 to accomodate overflows from callers
     if (gennum >= MaxXRefGenerationNum)
     {
-        m_unavailableObjects.insert(gennum);
+        m_unavailableObjects.insert(objnum);
         return -1;
     }
 
-- 
2.43.0


From f8f948e1721539c6d1837edd60f4e7b98417b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 16/66] fix: collect garbage along long chains of references
 without recursion

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 72 ++++++++++++------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index d6fb29c..45167f0 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -370,46 +370,46 @@ void PdfIndirectObjectList::CollectGarbage()
 
 void PdfIndirectObjectList::visitObject(const PdfObject& obj, unordered_set<PdfReference>& referencedObjects)
 {
-    if (obj.IsIndirect())
+    // NOTE: Use an explicit stack instead of recursion: chains of
+    // references (eg. outline items) can be very long
+    vector<const PdfObject*> pending = { &obj };
+    while (!pending.empty())
     {
-        // Try to check if the object has been already visited
-        auto inserted = referencedObjects.insert(obj.GetIndirectReference());
-        if (!inserted.second)
-        {
-            // The object has been visited, just return
-            return;
-        }
-    }
+        auto& curr = *pending.back();
+        pending.pop_back();
 
-    switch (obj.GetDataType())
-    {
-        case PdfDataType::Reference:
-        {
-            auto childObj = GetObject(obj.GetReference());
-            if (childObj == nullptr)
-                break;
+        // Check if the object has been already visited
+        if (curr.IsIndirect() && !referencedObjects.insert(curr.GetIndirectReference()).second)
+            continue;
 
-            visitObject(*childObj, referencedObjects);
-            break;
-        }
-        case PdfDataType::Array:
-        {
-            auto& arr = obj.GetArray();
-            for (auto& child : arr)
-                visitObject(child, referencedObjects);
-            break;
-        }
-        case PdfDataType::Dictionary:
-        {
-            auto& dict = obj.GetDictionary();
-            for (auto& pair : dict)
-                visitObject(pair.second, referencedObjects);
-            break;
-        }
-        default:
+        switch (curr.GetDataType())
         {
-            // Nothing to do
-            break;
+            case PdfDataType::Reference:
+            {
+                auto childObj = GetObject(curr.GetReference());
+                if (childObj != nullptr)
+                    pending.push_back(childObj);
+                break;
+            }
+            case PdfDataType::Array:
+            {
+                auto& arr = curr.GetArray();
+                for (auto& child : arr)
+                    pending.push_back(&child);
+                break;
+            }
+            case PdfDataType::Dictionary:
+            {
+                auto& dict = curr.GetDictionary();
+                for (auto& pair : dict)
+                    pending.push_back(&pair.second);
+                break;
+            }
+            default:
+            {
+                // Nothing to do
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From 4e5ba16aed0c5661dce0c1cf0ef8b57f9904ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 17/66] fix: read stream data after resolving indirect filter
 entries; refuse negative lengths

---
 src/pdfmm/base/PdfParserObject.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 14ba48d..0868de3 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -169,6 +169,13 @@ void PdfParserObject::parseStream()
     if (!lengthObj.TryGetNumber(size))
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStreamLength);
 
+    if (size < 0)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStreamLength, "The stream length can't be negative");
+
+    // NOTE: The filters may be indirect objects that are
+    // read from the device: do it before positioning it
+    auto filterList = PdfFilterFactory::CreateFilterList(*this);
+
     m_device->Seek(m_StreamOffset);
 
     size_t streamOffset;
@@ -215,7 +222,6 @@ void PdfParserObject::parseStream()
     }
 
 ReadStream:
-    m_device->Seek(streamOffset);	// reset it before reading!
     if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
     {
         // If metadata is not encrypted the Filter is set to "Crypt"
@@ -232,15 +238,17 @@ ReadStream:
         }
     }
 
+    m_device->Seek(streamOffset);	// reset it before reading!
+
     // Set stream raw data without marking the object dirty
     if (m_Encrypt != nullptr)
     {
         auto input = m_Encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
-        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), std::move(filterList));
     }
     else
     {
-        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), std::move(filterList));
     }
 }
 
-- 
2.43.0


From 6ea815f02be9d01fe44910ff858c0e4924340804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 18/66] fix: stream adapters: keep data when moved, release
 locks on failure, drop stale DecodeParms

---
 src/pdfmm/base/PdfObjectStream.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 10645ab..f23dc48 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -206,7 +206,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     {
         auto stream = rhs.GetInputStream(true);
         this->SetData(stream, true);
-        m_Provider->Clear();
+        rhs.m_Provider->Clear();
     }
 
     // Fix the /Filter and /DecodeParms keys for
@@ -319,7 +319,7 @@ unique_ptr<InputStream> PdfObjectStream::getInputStream(bool raw, PdfFilterList&
             }
             else if (decodeParmsObj->TryGetArray(decodeParmsArr))
             {
-                for (unsigned i = 0; i < decodeParmsArr->GetSize(); i++)
+                for (unsigned i = 0; i < decodeParmsArr->GetSize() && i < decodeParms.size(); i++)
                 {
                     auto decodeParmsEntry = decodeParmsArr->FindAt(i);
                     if (decodeParmsEntry == nullptr || !decodeParmsEntry->TryGetDictionary(decodeParmsDict))
@@ -392,14 +392,16 @@ PdfObjectInputStream::~PdfObjectInputStream()
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
 {
     utls::move(rhs.m_stream, m_stream);
-    utls::move(rhs.m_MediaDecodeParms, m_MediaDecodeParms);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
     : m_stream(&stream)
 {
-    m_stream->m_locked = true;
     m_input = stream.getInputStream(raw, m_MediaFilters, m_MediaDecodeParms);
+    m_stream->m_locked = true;
 }
 
 size_t PdfObjectInputStream::readBuffer(char* buffer, size_t size, bool& eof)
@@ -414,7 +416,16 @@ bool PdfObjectInputStream::readChar(char& ch)
 
 PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs) noexcept
 {
+    if (this == &rhs)
+        return *this;
+
+    if (m_stream != nullptr)
+        m_stream->m_locked = false;
+
     utls::move(rhs.m_stream, m_stream);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
     return *this;
 }
 
@@ -449,6 +460,9 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
                 m_stream->GetParent().GetDictionary().AddKey(PdfName::KeyFilter, arrFilters);
             }
 
+            // The data was encoded with default parameters
+            m_stream->GetParent().GetDictionary().RemoveKey(DecodeParmsKey);
+
             m_stream->m_Filters = std::move(filters);
         }
 
@@ -462,7 +476,7 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 }
 
 PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept
-    : m_filters(std::move(rhs.m_filters))
+    : m_filters(std::move(rhs.m_filters)), m_output(std::move(rhs.m_output))
 {
     utls::move(rhs.m_stream, m_stream);
 }
-- 
2.43.0


From 643b3d712c786f2d73b907091c2f43f9fc42443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 19/66] fix: filter lists given as arrays, errors while
 finishing an encoder

---
 src/pdfmm/base/PdfFilter.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 55814fd..84cf2f0 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -30,7 +30,16 @@ private:
     }
     ~PdfFilteredEncodeStream()
     {
-        m_filter->EndEncode();
+        try
+        {
+            m_filter->EndEncode();
+        }
+        catch (PdfError& e)
+        {
+            // The filter failed, possibly before: a
+            // destructor can't report it
+            mm::LogMessage(PdfLogSeverity::Error, "Failed finishing to encode a stream: {}", e.what());
+        }
     }
 public:
     PdfFilteredEncodeStream(const shared_ptr<OutputStream>& outputStream, PdfFilterType filterType)
@@ -312,13 +321,11 @@ PdfFilterList PdfFilterFactory::CreateFilterList(const PdfObject& filtersObj)
 {
     PdfFilterList filters;
     const PdfObject* filterKeyObj = nullptr;
-    if (filtersObj.IsDictionary()
-        && (filterKeyObj = filtersObj.GetDictionary().FindKey(PdfName::KeyFilter)) == nullptr
-        && filtersObj.IsArray())
+    if (filtersObj.IsDictionary())
     {
-        filterKeyObj = &filtersObj;
+        filterKeyObj = filtersObj.GetDictionary().FindKey(PdfName::KeyFilter);
     }
-    else if (filtersObj.IsName())
+    else if (filtersObj.IsArray() || filtersObj.IsName())
     {
         filterKeyObj = &filtersObj;
     }
-- 
2.43.0


From 8cfa9dc4ce503f0c477143e167beae2723514317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 20/66] fix: filters: end markers, chunk independent LZW and
 RLE, predictors with packed pixels

---
 src/pdfmm/base/PdfFont.cpp              |   2 +-
 src/pdfmm/private/PdfFiltersPrivate.cpp | 206 ++++++++++++++----------
 src/pdfmm/private/PdfFiltersPrivate.h   |  10 ++
 3 files changed, 128 insertions(+), 90 deletions(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index cbbb538..803e239 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -161,8 +161,8 @@ void PdfFont::WriteStringToStream(OutputStream& stream, const string_view& str)
     stream.Write("<");
     auto encoded = m_Encoding->ConvertToEncoded(str);
     unique_ptr<PdfFilter> filter = PdfFilterFactory::Create(PdfFilterType::ASCIIHexDecode);
+    // NOTE: The filter writes the closing bracket as the end of data marker
     filter->EncodeTo(stream, encoded);
-    stream.Write(">");
 }
 
 void PdfFont::InitImported(bool wantEmbed, bool wantSubset)
diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..5b789bd 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -55,8 +55,6 @@ public:
         }
 
         m_CurrRowIndex = 0;
-        m_BytesPerPixel = (m_BitsPerComponent * m_Colors) >> 3;
-        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent) >> 3;
 
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
         if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
@@ -65,6 +63,11 @@ public:
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
         }
 
+        // Rows start on a byte boundary, and a pixel smaller than
+        // a byte is predicted from the whole byte on its left
+        m_BytesPerPixel = (int)(((int64_t)m_BitsPerComponent * m_Colors + 7) / 8);
+        m_Rows = (int)(((int64_t)m_ColumnCount * m_Colors * m_BitsPerComponent + 7) / 8);
+
         // check that computed allocation sizes are > 0 (CVE-2018-20797)
         if (m_Rows < 1 || m_BitsPerComponent < 1)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
@@ -129,8 +132,9 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : static_cast<unsigned char>(m_Prev[m_CurrRowIndex - m_BytesPerPixel]));
+                        int up = static_cast<unsigned char>(m_Prev[m_CurrRowIndex]);
+                        m_Prev[m_CurrRowIndex] = ((prev + up) >> 1) + *buffer;
                         break;
                     }
                     case 14: // png paeth
@@ -223,7 +227,7 @@ private:
 #pragma region PdfHexFilter
 
 PdfHexFilter::PdfHexFilter()
-    : m_DecodedByte(0), m_Low(true)
+    : m_DecodedByte(0), m_Low(true), m_FoundEndMarker(false)
 {
 }
 
@@ -238,16 +242,22 @@ void PdfHexFilter::EncodeBlockImpl(const char* buffer, size_t len)
     }
 }
 
+void PdfHexFilter::EndEncodeImpl()
+{
+    GetStream()->Write('>');
+}
+
 void PdfHexFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_DecodedByte = 0;
     m_Low = true;
+    m_FoundEndMarker = false;
 }
 
 void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
     unsigned char val;
-    while (len-- != 0)
+    while (len-- != 0 && !m_FoundEndMarker)
     {
         if (PdfTokenizer::IsWhitespace(*buffer))
         {
@@ -255,7 +265,15 @@ void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
             continue;
         }
 
-        (void)utls::TryGetHexValue(*buffer, val);
+        if (*buffer == '>')
+        {
+            m_FoundEndMarker = true;
+            break;
+        }
+
+        if (!utls::TryGetHexValue(*buffer, val))
+            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
         if (m_Low)
         {
             m_DecodedByte = (char)(val & 0x0F);
@@ -277,9 +295,9 @@ void PdfHexFilter::EndDecodeImpl()
 {
     if (!m_Low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // an odd number of digits was read, so
+        // the missing last digit is assumed to be 0
+        GetStream()->Write((char)(m_DecodedByte << 4));
     }
 }
 
@@ -293,7 +311,7 @@ void PdfHexFilter::EndDecodeImpl()
 // Paul Haahr - http://www.webcom.com/~haahr/
 
 PdfAscii85Filter::PdfAscii85Filter()
-    : m_count(0), m_tuple(0)
+    : m_count(0), m_tuple(0), m_InEndMarker(false), m_FoundEndMarker(false)
 {
 }
 
@@ -362,21 +380,30 @@ void PdfAscii85Filter::EndEncodeImpl()
 {
     if (m_count > 0)
         this->EncodeTuple(m_tuple, m_count);
-    //GetStream()->Write( "~>", 2 );
+    GetStream()->Write("~>", 2);
 }
 
 void PdfAscii85Filter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_count = 0;
     m_tuple = 0;
+    m_InEndMarker = false;
+    m_FoundEndMarker = false;
 }
 
 void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    bool foundEndMarker = false;
-
-    while (len != 0 && !foundEndMarker)
+    while (len != 0 && !m_FoundEndMarker)
     {
+        if (m_InEndMarker)
+        {
+            if (*buffer != '>')
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
+            m_FoundEndMarker = true;
+            break;
+        }
+
         switch (*buffer)
         {
             default:
@@ -402,12 +429,7 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
                 this->WidePut(0, 4);
                 break;
             case '~':
-                buffer++;
-                len--;
-                if (len != 0 && *buffer != '>')
-                    PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-
-                foundEndMarker = true;
+                m_InEndMarker = true;
                 break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
@@ -596,7 +618,7 @@ void PdfFlateFilter::EndDecodeImpl()
 #pragma region PdfRLEFilter
 
 PdfRLEFilter::PdfRLEFilter()
-    : m_CodeLen(0)
+    : m_CodeLen(-1)
 {
 }
 
@@ -617,35 +639,31 @@ void PdfRLEFilter::EndEncodeImpl()
 
 void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)
 {
-    m_CodeLen = 0;
+    m_CodeLen = -1;
 }
 
 void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    while (len-- != 0)
+    // NOTE: The member is -1 when a length byte is expected
+    for (; len != 0 && m_CodeLen != 128; len--, buffer++)
     {
-        if (m_CodeLen == 0)
+        if (m_CodeLen == -1)
         {
-            m_CodeLen = static_cast<int>(*buffer);
-        }
-        else if (m_CodeLen == 128)
-        {
-            break;
+            m_CodeLen = static_cast<unsigned char>(*buffer);
         }
         else if (m_CodeLen <= 127)
         {
-            GetStream()->Write(buffer, 1);
+            // Copy this byte and the following m_CodeLen ones
+            GetStream()->Write(*buffer);
             m_CodeLen--;
         }
-        else if (m_CodeLen >= 129)
+        else
         {
-            m_CodeLen = 257 - m_CodeLen;
+            for (int i = 257 - m_CodeLen; i != 0; i--)
+                GetStream()->Write(*buffer);
 
-            while (m_CodeLen--)
-                GetStream()->Write(buffer, 1);
+            m_CodeLen = -1;
         }
-
-        buffer++;
     }
 }
 
@@ -661,7 +679,12 @@ PdfLZWFilter::PdfLZWFilter() :
     m_mask(0),
     m_code_len(0),
     m_character(0),
-    m_First(false)
+    m_First(false),
+    m_EndOfData(false),
+    m_EarlyChange(1),
+    m_BufferSize(0),
+    m_CodeBuffer(0),
+    m_OldCode(0)
 {
 }
 
@@ -687,6 +710,14 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_character = 0;
 
     m_First = true;
+    m_EndOfData = false;
+    m_BufferSize = 0;
+    m_CodeBuffer = 0;
+    m_OldCode = 0;
+    m_EarlyChange = 1;
+
+    if (decodeParms != nullptr)
+        m_EarlyChange = decodeParms->FindKeyAs<int64_t>("EarlyChange", 1) == 0 ? 0 : 1;
 
     if (decodeParms != nullptr)
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
@@ -696,66 +727,55 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 
 void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned buffer_size = 0;
-    const unsigned buffer_max = 24;
-
-    uint32_t old = 0;
+    // NOTE: Codes may span different blocks
+    constexpr unsigned LZW_TABLE_SIZE = 4096;
     uint32_t code = 0;
-    uint32_t codeBuff = 0;
-
     TLzwItem item;
-
     vector<unsigned char> data;
-    if (m_First)
-    {
-        m_character = *buffer;
-        m_First = false;
-    }
 
-    while (len != 0)
+    while (len != 0 && !m_EndOfData)
     {
         // Fill the buffer
-        while (buffer_size <= (buffer_max - 8) && len)
-        {
-            codeBuff <<= 8;
-            codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
-            buffer_size += 8;
+        m_CodeBuffer <<= 8;
+        m_CodeBuffer |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
+        m_BufferSize += 8;
 
-            buffer++;
-            len--;
-        }
+        buffer++;
+        len--;
 
         // read from the buffer
-        while (buffer_size >= m_code_len)
+        while (m_BufferSize >= m_code_len)
         {
-            code = (codeBuff >> (buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
-            buffer_size -= m_code_len;
+            code = (m_CodeBuffer >> (m_BufferSize - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
+            m_BufferSize -= m_code_len;
 
             if (code == PdfLZWFilter::s_clear)
             {
                 m_mask = 0;
                 m_code_len = 9;
+                m_First = true;
 
                 InitTable();
             }
             else if (code == PdfLZWFilter::s_eod)
             {
-                len = 0;
+                m_EndOfData = true;
                 break;
             }
             else
             {
-                if (code >= m_table.size())
+                if (code < m_table.size())
                 {
-                    if (old >= m_table.size())
-                    {
+                    data = m_table[code].value;
+                }
+                else
+                {
+                    if (m_First || code != m_table.size())
                         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-                    }
-                    data = m_table[old].value;
+
+                    data = m_table[m_OldCode].value;
                     data.push_back(m_character);
                 }
-                else
-                    data = m_table[code].value;
 
                 // Write data to the output device
                 if (m_Predictor != nullptr)
@@ -764,26 +784,32 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
                     GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
 
                 m_character = data[0];
-                if (old < m_table.size()) // fix the first loop
-                    data = m_table[old].value;
-                data.push_back(m_character);
-
-                item.value = data;
-                m_table.push_back(item);
-
-                old = code;
-
-                switch (m_table.size())
+                if (m_First)
                 {
-                    case 511:
-                    case 1023:
-                    case 2047:
-                        m_code_len++;
-                        m_mask++;
-                        break;
-                    default:
-                        break;
+                    // The first code after clearing the table
+                    // doesn't define a new sequence
+                    m_First = false;
+                }
+                else if (m_table.size() < LZW_TABLE_SIZE)
+                {
+                    item.value = m_table[m_OldCode].value;
+                    item.value.push_back(m_character);
+                    m_table.push_back(item);
+
+                    switch (m_table.size() + m_EarlyChange)
+                    {
+                        case 512:
+                        case 1024:
+                        case 2048:
+                            m_code_len++;
+                            m_mask++;
+                            break;
+                        default:
+                            break;
+                    }
                 }
+
+                m_OldCode = code;
             }
         }
     }
@@ -809,9 +835,11 @@ void PdfLZWFilter::InitTable()
         m_table.push_back(item);
     }
 
-    // Add dummy entry, which is never used by decoder
+    // Add dummy entries for the clear and end of data
+    // codes, which are never used by decoder
     item.value.clear();
     m_table.push_back(item);
+    m_table.push_back(item);
 }
 
 #pragma endregion // PdfLZWFilter
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b41d766..dba40ac 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -36,6 +36,8 @@ public:
 
     void EncodeBlockImpl(const char* buffer, size_t len) override;
 
+    void EndEncodeImpl() override;
+
     inline bool CanDecode() const override { return true; }
 
     void BeginDecodeImpl(const PdfDictionary*) override;
@@ -49,6 +51,7 @@ public:
 private:
     char m_DecodedByte;
     bool m_Low;
+    bool m_FoundEndMarker;
 };
 
 /** The Ascii85 filter.
@@ -83,6 +86,8 @@ private:
 private:
     int m_count;
     unsigned m_tuple;
+    bool m_InEndMarker;
+    bool m_FoundEndMarker;
 };
 
 /** The Flate filter.
@@ -198,6 +203,11 @@ private:
     unsigned char m_character;
 
     bool m_First;
+    bool m_EndOfData;
+    unsigned m_EarlyChange;
+    unsigned m_BufferSize;
+    uint32_t m_CodeBuffer;
+    uint32_t m_OldCode;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
-- 
2.43.0


From cfdea5aa20df2e078ed59f572a81c35d42e9c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:23 +0000
Subject: [PATCH 21/66] fix: cross-reference reading: hybrid sections, header
 offset, bounds of stream entries, eager loading

---
 src/pdfmm/base/PdfParser.cpp                 | 39 +++++++++----
 src/pdfmm/base/PdfParser.h                   |  5 +-
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 58 ++++++++++++++------
 src/pdfmm/base/PdfXRefStreamParserObject.h   |  9 ++-
 4 files changed, 80 insertions(+), 31 deletions(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..ef7164f 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -214,7 +214,7 @@ void PdfParser::MergeTrailer(const PdfObject& trailer)
         m_Trailer->GetDictionary().AddKey("ID", *obj);
 }
 
-void PdfParser::ReadNextTrailer(InputStreamDevice& device)
+void PdfParser::ReadNextTrailer(InputStreamDevice& device, const vector<unsigned>& freeEntries)
 {
     utls::RecursionGuard guard;
     if (m_tokenizer.IsNextToken(device, "trailer"))
@@ -244,7 +244,15 @@ void PdfParser::ReadNextTrailer(InputStreamDevice& device)
 
             try
             {
-                ReadXRefStreamContents(device, static_cast<size_t>(trailer->GetDictionary().FindKeyAs<int64_t>("XRefStm", 0)), false);
+                // The entries of objects hidden to readers that don't support
+                // xref streams are free in the table: let them be replaced
+                for (unsigned i : freeEntries)
+                    m_entries[i].Parsed = false;
+
+                ReadXRefStreamContents(device, static_cast<size_t>(trailer->GetDictionary().FindKeyAs<int64_t>("XRefStm", 0)) + m_magicOffset, false);
+
+                for (unsigned i : freeEntries)
+                    m_entries[i].Parsed = true;
             }
             catch (PdfError& e)
             {
@@ -266,8 +274,9 @@ void PdfParser::ReadNextTrailer(InputStreamDevice& device)
 
                 try
                 {
-                    if (m_visitedXRefOffsets.find((size_t)offset) == m_visitedXRefOffsets.end())
-                        ReadXRefContents(device, (size_t)offset);
+                    size_t prevOffset = (size_t)offset + m_magicOffset;
+                    if (m_visitedXRefOffsets.find(prevOffset) == m_visitedXRefOffsets.end())
+                        ReadXRefContents(device, prevOffset);
                     else
                         mm::LogMessage(PdfLogSeverity::Warning, "XRef contents at offset {} requested twice, skipping the second read",
                             static_cast<int64_t>(offset));
@@ -319,6 +328,7 @@ void PdfParser::ReadXRefContents(InputStreamDevice& device, size_t offset, bool
 
     int64_t firstObject = 0;
     int64_t objectCount = 0;
+    vector<unsigned> freeEntries;
 
     if (m_visitedXRefOffsets.find(offset) != m_visitedXRefOffsets.end())
     {
@@ -401,7 +411,7 @@ void PdfParser::ReadXRefContents(InputStreamDevice& device, size_t offset, bool
             if (positionAtEnd)
                 device.Seek(static_cast<ssize_t>(objectCount * PDF_XREF_ENTRY_SIZE), SeekDirection::Current);
             else
-                ReadXRefSubsection(device, firstObject, objectCount);
+                ReadXRefSubsection(device, firstObject, objectCount, &freeEntries);
         }
         catch (PdfError& e)
         {
@@ -419,7 +429,7 @@ void PdfParser::ReadXRefContents(InputStreamDevice& device, size_t offset, bool
 
     try
     {
-        ReadNextTrailer(device);
+        ReadNextTrailer(device, freeEntries);
     }
     catch (PdfError& e)
     {
@@ -445,7 +455,8 @@ bool CheckXRefEntryType(char c)
     return c == 'n' || c == 'f';
 }
 
-void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObject, int64_t& objectCount)
+void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObject, int64_t& objectCount,
+    vector<unsigned>* freeEntries)
 {
 #ifdef PDFMM_VERBOSE_DEBUG
     mm::LogMessage(PdfLogSeverity::Debug, "Reading XRef Section: {} {} Objects", firstObject, objectCount);
@@ -456,7 +467,10 @@ void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObje
     if (objectCount < 0)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: object count is negative");
 
-    m_entries.Enlarge((uint64_t)(firstObject + objectCount));
+    if (firstObject > numeric_limits<int64_t>::max() - objectCount)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: object number is too big");
+
+    m_entries.Enlarge(firstObject + objectCount);
 
     // consume all whitespaces
     char ch;
@@ -507,6 +521,8 @@ void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObje
                 {
                     // The variant is the number of the next free object
                     entry.ObjectNumber = variant;
+                    if (freeEntries != nullptr)
+                        freeEntries->push_back(objIndex);
                     break;
                 }
                 case XRefEntryType::InUse:
@@ -550,6 +566,7 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 
     device.Seek(offset);
     auto xrefObjTrailer = new PdfXRefStreamParserObject(m_Objects->GetDocument(), device, m_entries);
+    xrefObjTrailer->SetMagicOffset(m_magicOffset);
     try
     {
         xrefObjTrailer->ParseStream();
@@ -579,7 +596,7 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 
     // Check for a previous XRefStm or xref table
     size_t previousOffset;
-    if (xrefObjTrailer->TryGetPreviousOffset(previousOffset) && previousOffset != offset)
+    if (xrefObjTrailer->TryGetPreviousOffset(previousOffset) && (previousOffset += m_magicOffset) != offset)
     {
         try
         {
@@ -802,8 +819,10 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
         // in a second pass, or (if demand loading is enabled) defer it for later.
         for (auto objToLoad : *m_Objects)
         {
+            // NOTE: Objects from object streams are already loaded
             auto obj = dynamic_cast<PdfParserObject*>(objToLoad);
-            obj->ParseStream();
+            if (obj != nullptr)
+                obj->ParseStream();
         }
     }
 
diff --git a/src/pdfmm/base/PdfParser.h b/src/pdfmm/base/PdfParser.h
index b7872af..8024e56 100644
--- a/src/pdfmm/base/PdfParser.h
+++ b/src/pdfmm/base/PdfParser.h
@@ -238,7 +238,8 @@ private:
      *  \param firstObject object number of the first object
      *  \param objectCount  how many objects should be read from this section
      */
-    void ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObject, int64_t& objectCount);
+    void ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObject, int64_t& objectCount,
+        std::vector<unsigned>* freeEntries = nullptr);
 
     /** Reads an XRef stream contents object
      *  \param offset read the stream from this offset
@@ -293,7 +294,7 @@ private:
      */
     bool IsPdfFile(InputStreamDevice& device);
 
-    void ReadNextTrailer(InputStreamDevice& device);
+    void ReadNextTrailer(InputStreamDevice& device, const std::vector<unsigned>& freeEntries);
 
 
     /** Checks for the existence of the %%EOF marker at the end of the file.
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 472ffd9..b63db5a 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -23,7 +23,7 @@ PdfXRefStreamParserObject::PdfXRefStreamParserObject(InputStreamDevice& device,
     : PdfXRefStreamParserObject(nullptr, device, entries) { }
 
 PdfXRefStreamParserObject::PdfXRefStreamParserObject(PdfDocument* doc, InputStreamDevice& device, PdfXRefEntries& entries)
-    : PdfParserObject(doc, PdfReference(), device, -1), m_NextOffset(-1), m_entries(&entries)
+    : PdfParserObject(doc, PdfReference(), device, -1), m_NextOffset(-1), m_magicOffset(0), m_entries(&entries)
 {
 }
 
@@ -52,7 +52,13 @@ void PdfXRefStreamParserObject::DelayedLoadImpl()
     }
 
     if (dict.HasKey("Prev"))
-        m_NextOffset = static_cast<ssize_t>(dict.FindKeyAs<double>("Prev", 0));
+    {
+        auto offset = dict.FindKeyAs<int64_t>("Prev", 0);
+        if (offset < 0)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Negative /Prev in XRef stream");
+
+        m_NextOffset = static_cast<ssize_t>(offset);
+    }
 
     if (!this->HasStreamToParse())
         PDFMM_RAISE_ERROR(PdfErrorCode::NoXRef);
@@ -107,6 +113,20 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
     }
 
     const size_t entryLen = static_cast<size_t>(wArray[0] + wArray[1] + wArray[2]);
+    for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
+    {
+        if (wArray[i] > W_MAX_BYTES)
+        {
+            mm::LogMessage(PdfLogSeverity::Error,
+                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
+                wArray[i], W_MAX_BYTES);
+
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
+        }
+    }
+
+    if (entryLen == 0)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid entry length in XRef stream");
 
     charbuff buffer;
     this->GetOrCreateStream().CopyTo(buffer);
@@ -118,16 +138,21 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         int64_t firstObj = *it++;
         int64_t count = *it++;
 
+        if (firstObj < 0 || count < 0
+            || firstObj > numeric_limits<int>::max() || count > numeric_limits<int>::max())
+        {
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid /Index in XRef stream");
+        }
+
         m_entries->Enlarge(firstObj + count);
         for (unsigned index = 0; index < (unsigned)count; index++)
         {
-            if ((size_t)(cursor - buffer.data()) >= buffer.size())
+            if (buffer.size() - (size_t)(cursor - buffer.data()) < entryLen)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid count in XRef stream");
 
             unsigned objIndex = (unsigned)firstObj + index;
-            auto& entry = (*m_entries)[objIndex];
-            if (objIndex < m_entries->GetSize() && !entry.Parsed)
-                readXRefStreamEntry(entry, cursor, wArray);
+            if (objIndex < m_entries->GetSize() && !(*m_entries)[objIndex].Parsed)
+                readXRefStreamEntry((*m_entries)[objIndex], cursor, wArray);
 
             cursor += entryLen;
         }
@@ -151,8 +176,14 @@ void PdfXRefStreamParserObject::getIndices(vector<int64_t>& indices, int64_t siz
         if (!indexObj->TryGetArray(arr))
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef Stream /Index");
 
-        for (auto index : *arr)
-            indices.push_back(index.GetNumber());
+        for (auto& index : *arr)
+        {
+            int64_t num;
+            if (!index.TryGetNumber(num))
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef Stream /Index");
+
+            indices.push_back(num);
+        }
     }
 
     // indices must be a multiple of 2
@@ -165,15 +196,6 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
     uint64_t entryRaw[W_ARRAY_SIZE];
     for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
     {
-        if (wArray[i] > W_MAX_BYTES)
-        {
-            mm::LogMessage(PdfLogSeverity::Error,
-                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
-                wArray[i], W_MAX_BYTES);
-
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
-        }
-
         entryRaw[i] = 0;
         for (int64_t z = W_MAX_BYTES - wArray[i]; z < W_MAX_BYTES; z++)
         {
@@ -203,7 +225,7 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
             break;
         case 1:
             // normal uncompressed object
-            entry.Offset = entryRaw[1];
+            entry.Offset = entryRaw[1] + m_magicOffset;
             entry.Generation = (uint32_t)entryRaw[2];
             entry.Type = XRefEntryType::InUse;
             break;
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.h b/src/pdfmm/base/PdfXRefStreamParserObject.h
index d9e4a68..7fbb186 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.h
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.h
@@ -27,7 +27,7 @@ class PDFMM_API PdfXRefStreamParserObject final : public PdfParserObject
     friend class PdfParser;
 
     static constexpr unsigned W_ARRAY_SIZE = 3;
-    static constexpr unsigned W_MAX_BYTES = 4;
+    static constexpr unsigned W_MAX_BYTES = 8;
 
 private:
     /** Parse the object data from the given file handle starting at
@@ -56,6 +56,12 @@ public:
      */
     bool TryGetPreviousOffset(size_t& previousOffset) const;
 
+    /**
+     * Set the offset of the PDF header in the file: the offsets
+     * in the entries are relative to it
+     */
+    void SetMagicOffset(size_t offset) { m_magicOffset = offset; }
+
 private:
     PdfXRefStreamParserObject(PdfDocument* doc, InputStreamDevice& device,
         PdfXRefEntries& entries);
@@ -83,6 +89,7 @@ private:
 
 private:
     ssize_t m_NextOffset;
+    size_t m_magicOffset;
     PdfXRefEntries* m_entries;
 };
 
-- 
2.43.0


From 47c953086e01222001918d2523a89f5769d166e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 22/66] fix: always write the cross-reference entry of object 0

---
 src/pdfmm/base/PdfWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index f6ba8d3..6687681 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -96,8 +96,9 @@ void PdfWriter::Write(OutputStreamDevice& device)
 
         WritePdfObjects(device, *m_Objects, *xRef);
 
-        if (m_IncrementalUpdate)
-            xRef->SetFirstEmptyBlock();
+        // The section always has the entry of object 0,
+        // the head of the list of free objects
+        xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
     }
-- 
2.43.0


From adc262e52b4104efb2f6f412fad604a34381293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 23/66] fix: keep the indirect length of unmodified streams
 when writing them

---
 src/pdfmm/base/PdfObject.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index cb20dc5..88bcb08 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -231,6 +231,10 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         }
     }
 
+    // The indirect length of an unmodified stream, that is still
+    // in use by the object in the original file
+    unique_ptr<PdfObject> length;
+    bool isDirty = m_IsDirty;
     if (m_Stream != nullptr)
     {
         // Try to compress the flate compress the stream if it has no filters,
@@ -255,21 +259,34 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         }
 
         // Set length if it's not handled by the underlying provider
+        const PdfObject* lengthObj;
+        if (!isDirty && (lengthObj = m_Variant.GetDictionary().GetKey(PdfName::KeyLength)) != nullptr
+            && lengthObj->IsReference())
+        {
+            length.reset(new PdfObject(*lengthObj));
+        }
+
         if (!m_Stream->GetProvider().IsLengthHandled())
         {
-            size_t length = m_Stream->GetLength();
+            size_t streamLength = m_Stream->GetLength();
             if (encrypt.HasEncrypt())
-                length = encrypt.CalculateStreamLength(length);
+                streamLength = encrypt.CalculateStreamLength(streamLength);
 
             // Add the key without triggering SetDirty
             const_cast<PdfObject&>(*this).m_Variant.GetDictionary()
-                .AddKey(PdfName::KeyLength, static_cast<int64_t>(length), true);
+                .AddKey(PdfName::KeyLength, static_cast<int64_t>(streamLength), true);
         }
     }
 
     m_Variant.Write(device, writeMode, encrypt, buffer);
     device.Write('\n');
 
+    if (length != nullptr)
+    {
+        const_cast<PdfObject&>(*this).m_Variant.GetDictionary()
+            .AddKey(PdfName::KeyLength, std::move(*length), true);
+    }
+
     if (m_Stream != nullptr)
         m_Stream->Write(device, encrypt);
 
-- 
2.43.0


From 1c4461dd5b3ebdff15ca170df88f00647a36acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 24/66] fix: removed objects are marked free in updates also
 when their number can't be reused

---
 src/pdfmm/base/PdfIndirectObjectList.cpp |  5 ++---
 src/pdfmm/base/PdfIndirectObjectList.h   |  2 +-
 src/pdfmm/base/PdfWriter.cpp             | 21 +++++++++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 45167f0..c04076b 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -475,10 +475,9 @@ void PdfIndirectObjectList::EndAppendStream(PdfObjectStream& stream)
 
 void PdfIndirectObjectList::SetCanReuseObjectNumbers(bool canReuseObjectNumbers)
 {
+    // NOTE: The free objects must be retained, since
+    // they have to be marked as free when the file is updated
     m_CanReuseObjectNumbers = canReuseObjectNumbers;
-
-    if (!m_CanReuseObjectNumbers)
-        m_FreeObjects.clear();
 }
 
 unsigned PdfIndirectObjectList::GetSize() const
diff --git a/src/pdfmm/base/PdfIndirectObjectList.h b/src/pdfmm/base/PdfIndirectObjectList.h
index 5836bb8..38657a0 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.h
+++ b/src/pdfmm/base/PdfIndirectObjectList.h
@@ -105,7 +105,7 @@ public:
      *
      *  \param canReuseObjectNumbers if true, free object numbers can be re-used when creating new objects.
      *
-     *  If set to false, the list of free object numbers is automatically cleared.
+     *  If set to false, the list of free object numbers is retained but it's not used.
      */
     void SetCanReuseObjectNumbers(bool canReuseObjectNumbers);
 
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 6687681..3a3add6 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -19,6 +19,7 @@
 #include "PdfXRefStream.h"
 #include "PdfStreamDevice.h"
 
+#define MAX_GENERATION 65535
 #define PDF_MAGIC           "\xe2\xe3\xcf\xd3\n"
 // 10 spaces
 #define LINEARIZATION_PADDING "          "
@@ -37,6 +38,8 @@ PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, P
     m_SaveOptions(PdfSaveOptions::None),
     m_WriteFlags(PdfWriteFlags::None),
     m_PrevXRefOffset(0),
+    m_XRefOffset(0),
+    m_MagicOffset(0),
     m_IncrementalUpdate(false),
     m_rewriteXRefTable(false)
 {
@@ -181,6 +184,24 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
     {
         xref.AddFreeObject(freeObjectRef);
     }
+
+    if (objects.m_unavailableObjects.size() != 0)
+    {
+        // Objects removed with the last possible
+        // generation are free as well, but never reused
+        set<uint32_t> numbers;
+        for (auto obj : objects)
+            numbers.insert(obj->GetIndirectReference().ObjectNumber());
+
+        for (auto& freeObjectRef : objects.GetFreeObjects())
+            numbers.insert(freeObjectRef.ObjectNumber());
+
+        for (auto objNum : objects.m_unavailableObjects)
+        {
+            if (objNum != 0 && numbers.find(objNum) == numbers.end())
+                xref.AddFreeObject(PdfReference(objNum, MAX_GENERATION));
+        }
+    }
 }
 
 void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySizeKey) const
-- 
2.43.0


From 65a97d76abe3d9fa4604baa4483255ce4ea84186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 25/66] fix: chains of updates, updates of files with bytes
 before the header, size of updated files

---
 src/pdfmm/base/PdfMemDocument.cpp | 14 ++++++++++++--
 src/pdfmm/base/PdfMemDocument.h   |  1 +
 src/pdfmm/base/PdfParser.h        |  6 ++++++
 src/pdfmm/base/PdfWriter.cpp      | 17 +++++++++++++----
 src/pdfmm/base/PdfWriter.h        | 15 +++++++++++++++
 src/pdfmm/base/PdfXRef.cpp        |  2 +-
 src/pdfmm/base/PdfXRefStream.cpp  |  2 +-
 7 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9aa21f3..74afde7 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -42,7 +42,8 @@ PdfMemDocument::PdfMemDocument(bool empty) :
     m_Version(PdfVersionDefault),
     m_InitialVersion(PdfVersionDefault),
     m_HasXRefStream(false),
-    m_PrevXRefOffset(-1)
+    m_PrevXRefOffset(-1),
+    m_MagicOffset(0)
 {
 }
 
@@ -60,7 +61,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_Version(rhs.m_Version),
     m_InitialVersion(rhs.m_InitialVersion),
     m_HasXRefStream(rhs.m_HasXRefStream),
-    m_PrevXRefOffset(rhs.m_PrevXRefOffset)
+    m_PrevXRefOffset(rhs.m_PrevXRefOffset),
+    m_MagicOffset(rhs.m_MagicOffset)
 {
     auto encryptObj = GetTrailer().GetDictionary().FindKey("Encrypt");
     if (encryptObj != nullptr)
@@ -78,6 +80,7 @@ void PdfMemDocument::clear()
 {
     m_HasXRefStream = false;
     m_PrevXRefOffset = -1;
+    m_MagicOffset = 0;
     m_Encrypt = nullptr;
     m_device = nullptr;
 }
@@ -88,6 +91,7 @@ void PdfMemDocument::initFromParser(PdfParser& parser)
     m_InitialVersion = m_Version;
     m_HasXRefStream = parser.HasXRefStream();
     m_PrevXRefOffset = parser.GetXRefOffset();
+    m_MagicOffset = parser.GetMagicOffset();
 
     auto trailer = std::make_unique<PdfObject>(parser.GetTrailer());
     this->SetTrailer(std::move(trailer)); // Set immediately as trailer
@@ -270,6 +274,7 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
     writer.SetPdfVersion(this->GetPdfVersion());
     writer.SetSaveOptions(opts);
     writer.SetPrevXRefOffset(m_PrevXRefOffset);
+    writer.SetMagicOffset(m_MagicOffset);
     writer.SetUseXRefStream(m_HasXRefStream);
     writer.SetIncrementalUpdate(false);
 
@@ -288,6 +293,11 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
     {
         device.Seek(0, SeekDirection::End);
         writer.Write(device);
+
+        // A following update has to refer to this one
+        m_PrevXRefOffset = writer.GetXRefOffset();
+        if (m_InitialVersion < this->GetPdfVersion())
+            m_InitialVersion = this->GetPdfVersion();
     }
     catch (PdfError& e)
     {
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index b500748..c357088 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -251,6 +251,7 @@ private:
     PdfVersion m_InitialVersion;
     bool m_HasXRefStream;
     int64_t m_PrevXRefOffset;
+    uint64_t m_MagicOffset;
     std::unique_ptr<PdfEncrypt> m_Encrypt;
     std::shared_ptr<InputStreamDevice> m_device;
 };
diff --git a/src/pdfmm/base/PdfParser.h b/src/pdfmm/base/PdfParser.h
index 8024e56..4cb18f1 100644
--- a/src/pdfmm/base/PdfParser.h
+++ b/src/pdfmm/base/PdfParser.h
@@ -178,6 +178,12 @@ public:
 
     inline size_t GetXRefOffset() const { return m_XRefOffset; }
 
+    /**
+     * \returns the offset of the PDF header in the file: all
+     *      the offsets found in the file are relative to it
+     */
+    inline size_t GetMagicOffset() const { return m_magicOffset; }
+
     inline bool HasXRefStream() const { return m_HasXRefStream; }
 
 private:
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 3a3add6..2fd17f0 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -104,6 +104,7 @@ void PdfWriter::Write(OutputStreamDevice& device)
         xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
+        m_XRefOffset = (int64_t)(xRef->GetOffset() + m_MagicOffset);
     }
     catch (PdfError& e)
     {
@@ -152,7 +153,7 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
                     // the offset points just after the "0 0 obj" string
                     if (parserObject->GetOffset() - objRefLength > 0)
                     {
-                        xref.AddInUseObject(obj->GetIndirectReference(), parserObject->GetOffset() - objRefLength);
+                        xref.AddInUseObject(obj->GetIndirectReference(), parserObject->GetOffset() - objRefLength - m_MagicOffset);
                         continue;
                     }
                 }
@@ -174,7 +175,7 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
         }
         else
         {
-            xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition());
+            xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition() - m_MagicOffset);
             // Also make sure that we do not encrypt the encryption dictionary!
             obj->Write(device, m_WriteFlags, obj == m_EncryptObj ? nullptr : m_Encrypt.get(), m_buffer);
         }
@@ -206,7 +207,15 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
 
 void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySizeKey) const
 {
-    trailer.GetDictionary().AddKey(PdfName::KeySize, static_cast<int64_t>(size));
+    int64_t totalSize = static_cast<int64_t>(size);
+    if (m_IncrementalUpdate)
+    {
+        // The size covers also the entries in the sections of the previous revisions
+        totalSize = std::max(totalSize, static_cast<int64_t>(m_Objects->GetObjectCount()));
+        totalSize = std::max(totalSize, m_Trailer->GetDictionary().FindKeyAs<int64_t>(PdfName::KeySize, 0));
+    }
+
+    trailer.GetDictionary().AddKey(PdfName::KeySize, totalSize);
 
     if (!onlySizeKey)
     {
@@ -234,7 +243,7 @@ void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySize
 
         if (!m_rewriteXRefTable && m_PrevXRefOffset > 0)
         {
-            PdfVariant value(m_PrevXRefOffset);
+            PdfVariant value(m_PrevXRefOffset - (int64_t)m_MagicOffset);
             trailer.GetDictionary().AddKey("Prev", value);
         }
     }
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index 6b4ce3e..a569d9f 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -114,6 +114,19 @@ public:
      */
     inline int64_t GetPrevXRefOffset() const { return m_PrevXRefOffset; }
 
+    /** Set the position of the PDF header in the device: the offsets
+     * in the written cross-reference section are relative to it
+     */
+    inline void SetMagicOffset(uint64_t magicOffset) { m_MagicOffset = magicOffset; }
+
+    /** Get the position of the PDF header in the device
+     */
+    inline uint64_t GetMagicOffset() const { return m_MagicOffset; }
+
+    /** Get the position in the device of the cross-reference section, after writing
+     */
+    inline int64_t GetXRefOffset() const { return m_XRefOffset; }
+
     /** Set whether writing an incremental update.
      *  Default is false.
      *  \param incrementalUpdate if true an incremental update will be written
@@ -190,6 +203,8 @@ private:
     PdfString m_identifier;
     PdfString m_originalIdentifier; // used for incremental update
     int64_t m_PrevXRefOffset;
+    int64_t m_XRefOffset;
+    uint64_t m_MagicOffset;
     bool m_IncrementalUpdate;
     bool m_rewriteXRefTable; // Only used if incremental update
 };
diff --git a/src/pdfmm/base/PdfXRef.cpp b/src/pdfmm/base/PdfXRef.cpp
index c59a0fb..623c050 100644
--- a/src/pdfmm/base/PdfXRef.cpp
+++ b/src/pdfmm/base/PdfXRef.cpp
@@ -86,7 +86,7 @@ void PdfXRef::Write(OutputStreamDevice& device, charbuff& buffer)
 
     mergeBlocks();
 
-    m_offset = device.GetPosition();
+    m_offset = device.GetPosition() - m_writer->GetMagicOffset();
     this->BeginWrite(device, buffer);
     while (it != m_blocks.end())
     {
diff --git a/src/pdfmm/base/PdfXRefStream.cpp b/src/pdfmm/base/PdfXRefStream.cpp
index 6bdbf35..ad53025 100644
--- a/src/pdfmm/base/PdfXRefStream.cpp
+++ b/src/pdfmm/base/PdfXRefStream.cpp
@@ -92,7 +92,7 @@ void PdfXRefStream::EndWriteImpl(OutputStreamDevice& device, charbuff& buffer)
     m_xrefStreamObj->GetDictionary().AddKey("W", wArr);
  
     // Set the actual offset of the XRefStm object
-    uint32_t offset = (uint32_t)device.GetPosition();
+    uint32_t offset = (uint32_t)(device.GetPosition() - GetWriter().GetMagicOffset());
     PDFMM_ASSERT(m_xrefStreamEntryIndex >= 0);
     m_rawEntries[m_xrefStreamEntryIndex].Variant = AS_BIG_ENDIAN(offset);
  
-- 
2.43.0


From fc7277834baa59e31414ace0653ff757e6a9667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 26/66] fix: keep the trailing zeros of numbers written without
 a fraction

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..e4d7560 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1197,6 +1197,10 @@ void utls::ReadInt16BE(const char* buf, int16_t& value)
 
 void removeTrailingZeroes(string& str)
 {
+    // Without a fractional part all digits are significant
+    if (str.find('.') == string::npos)
+        return;
+
     // Remove trailing zeroes
     const char* cursor = str.data();
     size_t len = str.size();
-- 
2.43.0


From 1da60e4dc2c152819a69ab30e995a3d480977d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 27/66] fix: reading page contents in blocks loses data and
 skips the separators

---
 src/pdfmm/base/PdfCanvasInputDevice.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfCanvasInputDevice.cpp b/src/pdfmm/base/PdfCanvasInputDevice.cpp
index 1c0cb19..1851349 100644
--- a/src/pdfmm/base/PdfCanvasInputDevice.cpp
+++ b/src/pdfmm/base/PdfCanvasInputDevice.cpp
@@ -83,17 +83,18 @@ bool PdfCanvasInputDevice::peek(char& ch) const
 
 size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
 {
-    PDFMM_ASSERT(size != 0);
     if (m_eof)
     {
         eof = true;
         return 0;
     }
 
+    eof = false;
+
     size_t read;
     size_t count = 0;
     InputStreamDevice* device = nullptr;
-    while (true)
+    while (size != 0)
     {
         if (!tryGetNextDevice(device))
         {
@@ -102,9 +103,6 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             return count;
         }
 
-        if (size == 0)
-            return count;
-
         if (m_deviceSwitchOccurred)
         {
             // Handle device switch by inserting
@@ -115,16 +113,19 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             count += 1;
             m_deviceSwitchOccurred = false;
             if (size == 0)
-                return count;
+                break;
         }
 
         // Span reads into multple input devices
         // NOTE: we ignore if the device reached EOF, and
         // we try pop another device at the next iteration
-        read = device->Read(buffer + count, size, eof);
+        bool deviceEof;
+        read = device->Read(buffer + count, size, deviceEof);
         size -= read;
         count += read;
     }
+
+    return count;
 }
 
 bool PdfCanvasInputDevice::readChar(char& ch)
-- 
2.43.0


From 56cbf29a3a25c9917c7ea2daadec03369eb65447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 28/66] fix: stream devices: one position for reading and
 writing, recover from failed seeks, file modes keep content

---
 src/pdfmm/base/PdfInputStream.cpp  |   2 +
 src/pdfmm/base/PdfStreamDevice.cpp | 107 ++++++++++++++++++++---------
 src/pdfmm/base/PdfStreamDevice.h   |   2 +
 3 files changed, 78 insertions(+), 33 deletions(-)

diff --git a/src/pdfmm/base/PdfInputStream.cpp b/src/pdfmm/base/PdfInputStream.cpp
index 25a1009..2d765b5 100644
--- a/src/pdfmm/base/PdfInputStream.cpp
+++ b/src/pdfmm/base/PdfInputStream.cpp
@@ -73,6 +73,7 @@ size_t InputStream::Read(char* buffer, size_t size, bool& eof)
 
 void InputStream::CopyTo(OutputStream& stream)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
@@ -88,6 +89,7 @@ void InputStream::CopyTo(OutputStream& stream)
 
 void InputStream::CopyTo(OutputStream& stream, size_t size)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 6f3fc06..627f3f8 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -39,25 +39,21 @@ size_t getPosition(TStream& stream)
 template <typename TStream>
 size_t getLength(TStream& stream)
 {
-    streampos currpos;
-    if (stream.eof())
-    {
-        // tellg() will set failbit when called on a stream that
-        // is eof. Reset eofbit and restore it after calling tellg()
-        // https://stackoverflow.com/q/18490576/213871
-        PDFMM_ASSERT(!stream.fail());
-        stream.clear();
-        currpos = utls::stream_helper<TStream>::tell(stream);
-        stream.clear(ios_base::eofbit);
-    }
-    else
-    {
-        streampos prevpos = utls::stream_helper<TStream>::tell(stream);
-        (void)utls::stream_helper<TStream>::seek(stream, 0, ios_base::end);
-        currpos = utls::stream_helper<TStream>::tell(stream);
-        if (currpos != prevpos)
-            (void)utls::stream_helper<TStream>::seek(stream, prevpos);
-    }
+    // tellg() will set failbit when called on a stream that
+    // is eof. Reset eofbit and restore it at the end
+    // https://stackoverflow.com/q/18490576/213871
+    bool eof = stream.eof();
+    if (eof)
+        stream.clear(stream.rdstate() & ~ios_base::eofbit);
+
+    streampos prevpos = utls::stream_helper<TStream>::tell(stream);
+    (void)utls::stream_helper<TStream>::seek(stream, 0, ios_base::end);
+    streampos currpos = utls::stream_helper<TStream>::tell(stream);
+    if (currpos != prevpos)
+        (void)utls::stream_helper<TStream>::seek(stream, prevpos);
+
+    if (eof)
+        stream.clear(stream.rdstate() | ios_base::eofbit);
 
     return (size_t)currpos;
 }
@@ -116,7 +112,7 @@ size_t StreamDevice::SeekPosition(size_t curpos, size_t devlen, ssize_t offset,
             }
             else
             {
-                if ((size_t)-offset > curpos)
+                if ((size_t)0 - (size_t)offset > curpos)
                     PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid seek out of bounds");
             }
 
@@ -126,7 +122,7 @@ size_t StreamDevice::SeekPosition(size_t curpos, size_t devlen, ssize_t offset,
         {
             if (offset > 0)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Invalid positive seek");
-            else if ((size_t)-offset > devlen)
+            else if ((size_t)0 - (size_t)offset > devlen)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid seek out of bounds");
 
             return (size_t)(devlen + offset);
@@ -173,7 +169,8 @@ StandardStreamDevice::StandardStreamDevice(DeviceAccess access, ios* stream, ist
     m_Stream(stream),
     m_istream(istream),
     m_ostream(ostream),
-    m_StreamOwned(streamOwned)
+    m_StreamOwned(streamOwned),
+    m_LastRead(false)
 {
     // TODO1: check stream is either istream/ostream/iostream
 }
@@ -224,12 +221,17 @@ size_t StandardStreamDevice::GetPosition() const
             break;
         }
         case DeviceAccess::Write:
-        case DeviceAccess::ReadWrite:
         {
             PDFMM_INVARIANT(m_ostream != nullptr);
             ret = getPosition(*m_ostream);
             break;
         }
+        case DeviceAccess::ReadWrite:
+        {
+            PDFMM_INVARIANT(m_istream != nullptr && m_ostream != nullptr);
+            ret = m_LastRead ? getPosition(*m_istream) : getPosition(*m_ostream);
+            break;
+        }
         default:
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
@@ -253,6 +255,7 @@ bool StandardStreamDevice::Eof() const
 void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 {
     PDFMM_INVARIANT(m_ostream != nullptr);
+    beginOperation(false);
     m_ostream->write(buffer, size);
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to write the given buffer");
@@ -260,7 +263,9 @@ void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 
 void StandardStreamDevice::flush()
 {
-    PDFMM_INVARIANT(m_ostream != nullptr);
+    if (m_ostream == nullptr)
+        return;
+
     m_ostream->flush();
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to flush the stream");
@@ -268,7 +273,8 @@ void StandardStreamDevice::flush()
 
 size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 {
-    PDFMM_INVARIANT(m_Stream != nullptr);
+    PDFMM_INVARIANT(m_istream != nullptr);
+    beginOperation(true);
     if (m_istream->eof())
     {
         eof = true;
@@ -280,7 +286,8 @@ size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 
 bool StandardStreamDevice::readChar(char& ch)
 {
-    PDFMM_INVARIANT(m_Stream != nullptr);
+    PDFMM_INVARIANT(m_istream != nullptr);
+    beginOperation(true);
     if (m_istream->eof())
     {
         ch = '\0';
@@ -296,6 +303,8 @@ bool StandardStreamDevice::peek(char& ch) const
 
     int read;
 
+    const_cast<StandardStreamDevice&>(*this).beginOperation(true);
+
     // NOTE: We don't want a peek() call to set failbit
     if (m_istream->eof())
         goto Eof;
@@ -319,20 +328,45 @@ void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
 {
     // NOTE: Some c++ libraries don't reset eofbit prior seeking
     m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
-    if ((GetAccess() & DeviceAccess::Read) != DeviceAccess{ })
+    // NOTE: In a read/write device move just the active position,
+    // see beginOperation(). Moving both would also seek twice
+    // the streams that have just one position
+    if (GetAccess() == DeviceAccess::Read || (GetAccess() == DeviceAccess::ReadWrite && m_LastRead))
     {
         PDFMM_INVARIANT(m_istream != nullptr);
         ::seek(*m_istream, offset, direction);
     }
-
-    if ((GetAccess() & DeviceAccess::Write) != DeviceAccess{ })
+    else
     {
         PDFMM_INVARIANT(m_ostream != nullptr);
         ::seek(*m_ostream, offset, direction);
     }
 
     if (m_Stream->fail())
+    {
+        // Don't make the device unusable because of an invalid position
+        m_Stream->clear(m_Stream->rdstate() & ~ios_base::failbit);
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek to given position in the stream");
+    }
+}
+
+void StandardStreamDevice::beginOperation(bool read)
+{
+    // Writing to a stream which is eof does nothing
+    if (!read && m_Stream->eof())
+        m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
+
+    if (GetAccess() != DeviceAccess::ReadWrite || read == m_LastRead)
+        return;
+
+    // The device has just one position, while
+    // streams may have distinct read/write ones
+    if (read)
+        m_istream->seekg(m_ostream->tellp());
+    else
+        m_ostream->seekp(m_istream->tellg());
+
+    m_LastRead = read;
 }
 
 FileStreamDevice::FileStreamDevice(const string_view& filepath)
@@ -404,6 +438,7 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::CreateNew:
             if (fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must not exist");
+            openmode |= ios_base::trunc;
             break;
         case FileMode::Create:
             openmode |= ios_base::trunc;
@@ -411,8 +446,14 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::Open:
             if ((access & DeviceAccess::Write) != DeviceAccess{ } && !fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must exist");
+            // NOTE: Opening just with ios_base::out would truncate the file
+            openmode |= ios_base::in;
             break;
         case FileMode::OpenOrCreate:
+            if (fs::exists(filename))
+                openmode |= ios_base::in;
+            else
+                openmode |= ios_base::trunc;
             break;
         case FileMode::Truncate:
             if (!fs::exists(filename))
@@ -486,9 +527,9 @@ void NullStreamDevice::writeBuffer(const char* buffer, size_t size)
 
 size_t NullStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 {
-    (void)buffer;
     size_t prevpos = m_Position;
-    m_Position = std::min(m_Length, m_Position + size);
+    m_Position += std::min(m_Length - m_Position, size);
+    std::memset(buffer, 0, m_Position - prevpos);
     eof = m_Position == m_Length;
     return m_Position - prevpos;
 }
@@ -500,7 +541,7 @@ bool NullStreamDevice::readChar(char& ch)
         return false;
 
     m_Position++;
-    return false;
+    return true;
 }
 
 void NullStreamDevice::seek(ssize_t offset, SeekDirection direction)
@@ -570,7 +611,7 @@ bool SpanStreamDevice::CanSeek() const
 
 void SpanStreamDevice::writeBuffer(const char* buffer, size_t size)
 {
-    if (m_Position + size > m_Length)
+    if (size > m_Length - m_Position)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Attempt to write out of span bounds");
 
     std::memcpy(m_buffer + m_Position, buffer, size);
diff --git a/src/pdfmm/base/PdfStreamDevice.h b/src/pdfmm/base/PdfStreamDevice.h
index 79a026e..39d5ea2 100644
--- a/src/pdfmm/base/PdfStreamDevice.h
+++ b/src/pdfmm/base/PdfStreamDevice.h
@@ -72,12 +72,14 @@ protected:
 
 private:
     StandardStreamDevice(DeviceAccess access, std::ios* stream, std::istream* istream, std::ostream* ostream, bool streamOwned);
+    void beginOperation(bool read);
 
 private:
     std::ios* m_Stream;
     std::istream* m_istream;
     std::ostream* m_ostream;
     bool m_StreamOwned;
+    bool m_LastRead;
 };
 
 // These are the .NET System.IO file opening modes
-- 
2.43.0


From 25d634fe82e182b7cd98c0da1ea608e0e40ca41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 29/66] fix: moving a matrix along one axis applies the whole
 matrix

---
 src/pdfmm/base/PdfMathBase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfMathBase.h b/src/pdfmm/base/PdfMathBase.h
index fd868b2..3e3be75 100644
--- a/src/pdfmm/base/PdfMathBase.h
+++ b/src/pdfmm/base/PdfMathBase.h
@@ -40,6 +40,7 @@ namespace mm
         static void Apply(double m[6], double value)
         {
             m[4] = value * m[0] + m[4];
+            m[5] = value * m[1] + m[5];
         }
     };
 
@@ -58,6 +59,7 @@ namespace mm
 
         static void Apply(double m[6], double value)
         {
+            m[4] = value * m[2] + m[4];
             m[5] = value * m[3] + m[5];
         }
     };
-- 
2.43.0


From fbfe620504077d57cd5ae2ad7d9afbb773a1d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 30/66] fix: transformed and disjoint rectangles

---
 src/pdfmm/base/PdfRect.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfRect.cpp b/src/pdfmm/base/PdfRect.cpp
index e929903..4e3ebf5 100644
--- a/src/pdfmm/base/PdfRect.cpp
+++ b/src/pdfmm/base/PdfRect.cpp
@@ -11,6 +11,7 @@
 #include "PdfVariant.h"
 #include "PdfMath.h"
 
+#include <algorithm>
 #include <iomanip>
 
 static void CreateRect(double x1, double y1, double x2, double y2,
@@ -128,16 +129,23 @@ void PdfRect::Intersect(const PdfRect& rect)
         {
             m_Height -= diff;
         }
+
+        // Disjoint rectangles have no common area
+        m_Width = std::max(m_Width, 0.0);
+        m_Height = std::max(m_Height, 0.0);
     }
 }
 
 PdfRect PdfRect::operator*(const Matrix& m) const
 {
-    Vector2 corner1(m_Left, m_Bottom);
-    Vector2 corner2(GetRight(), GetTop());
-    corner1 = corner1 * m;
-    corner2 = corner2 * m;
-    return PdfRect::FromCorners(corner1.X, corner1.Y, corner2.X, corner2.Y);
+    // Find the bounding box of all the transformed corners
+    auto corner1 = Vector2(m_Left, m_Bottom) * m;
+    auto corner2 = Vector2(GetRight(), m_Bottom) * m;
+    auto corner3 = Vector2(GetRight(), GetTop()) * m;
+    auto corner4 = Vector2(m_Left, GetTop()) * m;
+    auto x = std::minmax({ corner1.X, corner2.X, corner3.X, corner4.X });
+    auto y = std::minmax({ corner1.Y, corner2.Y, corner3.Y, corner4.Y });
+    return PdfRect::FromCorners(x.first, y.first, x.second, y.second);
 }
 
 void CreateRect(double x1, double y1, double x2, double y2, double& left, double& bottom, double& width, double& height)
-- 
2.43.0


From 03cc4836fba681e0b89b2dfa6e4f2fb0c07b6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 31/66] fix: colours: gray values from text, empty arrays,
 domain of densities and NaN, separation functions

---
 src/pdfmm/base/PdfColor.cpp | 48 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index b4563d6..803f76c 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -296,7 +296,8 @@ static const PdfNamedColor s_NamedColors[s_NamedColorsCount] =
 
 inline void CheckDoubleRange(double val, double min, double max)
 {
-    if ((val < min) || (val > max))
+    // NOTE: The comparison must fail also for NaN
+    if (!(val >= min && val <= max))
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 }
 
@@ -385,6 +386,8 @@ PdfColor PdfColor::CreateCieLab(double cieL, double cieA, double cieB)
 
 PdfColor PdfColor::CreateSeparation(const std::string_view& name, double density, const PdfColor& alternateColor)
 {
+    CheckDoubleRange(density, 0.0, 1.0);
+
     Color color{ };
     switch (alternateColor.GetColorSpace())
     {
@@ -687,7 +690,7 @@ PdfColor PdfColor::FromString(const string_view& name)
     if (isdigit(name[0]) || name[0] == '.')
     {
         double grayVal = 0.0;
-        if (std::from_chars(name.data() + 1, name.data() + name.size(), grayVal, chars_format::fixed).ec != std::errc())
+        if (std::from_chars(name.data(), name.data() + name.size(), grayVal, chars_format::fixed).ec != std::errc())
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
 
         return PdfColor(grayVal);
@@ -780,7 +783,7 @@ PdfColor PdfColor::FromString(const string_view& name)
         pair<const PdfNamedColor*, const PdfNamedColor*> iterators =
             std::equal_range(&(s_NamedColors[0]),
                 s_NamedColors + s_NamedColorsCount,
-                PdfNamedColor(name.data(), PdfColor()), NamedColorComparatorPredicate());
+                PdfNamedColor(name, PdfColor()), NamedColorComparatorPredicate());
 
         if (iterators.first != iterators.second)
             return iterators.first->GetColor();
@@ -812,6 +815,7 @@ bool PdfColor::TryCreateFromArray(const PdfArray& arr, PdfColor& color)
     if (arr.GetSize() == 0) // Transparent
     {
         color = CreateTransparent();
+        return true;
     }
     else if (arr.GetSize() == 1) // grayscale
     {
@@ -902,7 +906,7 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                 {
                     char data[1 * 2];
                     data[0] = 0;
-                    data[1] = static_cast<char> (m_Color.gray);
+                    data[1] = static_cast<char>(static_cast<unsigned char>(m_Color.gray * 255));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
@@ -931,9 +935,9 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                     data[0] = 0;
                     data[1] = 0;
                     data[2] = 0;
-                    data[3] = static_cast<char> (m_Color.rgb[0] * 255);
-                    data[4] = static_cast<char> (m_Color.rgb[1] * 255);
-                    data[5] = static_cast<char> (m_Color.rgb[2] * 255);
+                    data[3] = static_cast<char>(static_cast<unsigned char>(m_Color.rgb[0] * 255));
+                    data[4] = static_cast<char>(static_cast<unsigned char>(m_Color.rgb[1] * 255));
+                    data[5] = static_cast<char>(static_cast<unsigned char>(m_Color.rgb[2] * 255));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
@@ -967,10 +971,10 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                     data[1] = 0;
                     data[2] = 0;
                     data[3] = 0;
-                    data[4] = static_cast<char> (m_Color.cmyk[0] * 255);
-                    data[5] = static_cast<char> (m_Color.cmyk[1] * 255);
-                    data[6] = static_cast<char> (m_Color.cmyk[2] * 255);
-                    data[7] = static_cast<char> (m_Color.cmyk[3] * 255);
+                    data[4] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[0] * 255));
+                    data[5] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[1] * 255));
+                    data[6] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[2] * 255));
+                    data[7] = static_cast<char>(static_cast<unsigned char>(m_Color.cmyk[3] * 255));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
@@ -1001,33 +1005,35 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
 
                 case PdfColorSpace::Lab:
                 {
+                    // The samples are decoded to the ranges of the L, a, b components
                     char data[3 * 2];
                     data[0] = 0;
                     data[1] = 0;
                     data[2] = 0;
-                    data[3] = static_cast<char> (m_Color.lab[0] * 255);
-                    data[4] = static_cast<char> (m_Color.lab[1] * 255);
-                    data[5] = static_cast<char> (m_Color.lab[2] * 255);
+                    data[3] = static_cast<char>(static_cast<unsigned char>(m_Color.lab[0] / 100 * 255));
+                    data[4] = static_cast<char>(static_cast<unsigned char>(m_Color.lab[1] + 128));
+                    data[5] = static_cast<char>(static_cast<unsigned char>(m_Color.lab[2] + 128));
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
-                    range.Add(static_cast<int64_t>(1));
-                    range.Add(static_cast<int64_t>(0));
-                    range.Add(static_cast<int64_t>(1));
-                    range.Add(static_cast<int64_t>(0));
-                    range.Add(static_cast<int64_t>(1));
+                    range.Add(static_cast<int64_t>(100));
+                    range.Add(static_cast<int64_t>(-128));
+                    range.Add(static_cast<int64_t>(127));
+                    range.Add(static_cast<int64_t>(-128));
+                    range.Add(static_cast<int64_t>(127));
+                    csTintFunc.GetDictionary().AddKey("Decode", range);
                     csTintFunc.GetDictionary().AddKey("Range", range);
 
                     PdfArray size;
                     size.Add(static_cast<int64_t>(2));
                     csTintFunc.GetDictionary().AddKey("Size", size);
-
                     csTintFunc.GetOrCreateStream().SetData(bufferview(data, 3 * 2));
 
+                    auto labSpace = CreateCieLab(m_Color.lab[0], m_Color.lab[1], m_Color.lab[2]).BuildColorSpace(document);
                     PdfArray csArr;
                     csArr.Add(PdfName("Separation"));
                     csArr.Add(PdfName(m_SeparationName));
-                    csArr.Add(PdfName("Lab"));
+                    csArr.Add(labSpace->GetIndirectReference());
                     csArr.Add(csTintFunc.GetIndirectReference());
 
                     return &document.GetObjects().CreateObject(std::move(csArr));
-- 
2.43.0


From e9ff23b8f99c2383b44cf552eed2e008ca2c59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 32/66] fix: nullable: comparison with a nullable reference was
 inverted

---
 src/pdfmm/common/nullable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 1fbb79e..99b2fa1 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -241,12 +241,12 @@ namespace COMMON_NAMESPACE
     bool operator==(const nullable<std::decay_t<T2>>& lhs, const nullable<T2&>& rhs)
     {
         if (lhs.m_hasValue != rhs.m_hasValue)
-            return true;
+            return false;
 
         if (lhs.m_hasValue)
-            return lhs.m_value != *rhs.m_value;
+            return lhs.m_value == *rhs.m_value;
         else
-            return false;
+            return true;
     }
 
     template <typename T2>
-- 
2.43.0


From f3efdd71b104ee3b9752a463f673d91484c75b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 33/66] fix: dates: default month and day, fractions of
 seconds, views without terminator

---
 src/pdfmm/base/PdfDate.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..7ea986e 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -199,9 +199,10 @@ bool PdfDate::operator!=(const PdfDate& rhs) const
 
 bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
+    // ISO 32000-1:2008, 7.9.4 Dates: "The default values for MM and DD shall be both 01"
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -211,10 +212,13 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr)
+    if (dateStr.data() == nullptr)
         return false;
 
+    // The view may be not null terminated
+    string nullTerminated(dateStr);
+    const char* cursor = nullTerminated.data();
+
     if (*cursor == 'D')
     {
         cursor++;
@@ -292,8 +296,8 @@ End:
 bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -303,8 +307,10 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr || *cursor == '\0')
+    // The view may be not null terminated
+    string nullTerminated(dateStr);
+    const char* cursor = nullTerminated.data();
+    if (*cursor == '\0')
         return false;
 
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
@@ -338,8 +344,24 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     if (!parseFixLenNumber(cursor, 2, 0, 59, s))
         return false;
 
+    if (*cursor == '.')
+    {
+        // Ignore the decimal fraction of a second
+        cursor++;
+        if (!isdigit(*cursor))
+            return false;
+
+        while (isdigit(*cursor))
+            cursor++;
+    }
+
     if (!tryReadShiftChar(cursor, zoneShift))
+    {
+        if (*cursor != '\0')
+            return false;
+
         goto End;
+    }
 
 ParseShift:
     hasZoneShift = true;
-- 
2.43.0


From 3ec464de03533ad70d364e851eb8d15874200253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 34/66] fix: info: an invalid date is no date

---
 src/pdfmm/base/PdfInfo.cpp | 22 ++++++++++++----------
 src/pdfmm/base/PdfInfo.h   |  5 +++++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfInfo.cpp b/src/pdfmm/base/PdfInfo.cpp
index 672721c..d36c283 100644
--- a/src/pdfmm/base/PdfInfo.cpp
+++ b/src/pdfmm/base/PdfInfo.cpp
@@ -52,6 +52,16 @@ nullable<const PdfString&> PdfInfo::getStringFromInfoDict(const string_view& nam
         return *str;
 }
 
+nullable<PdfDate> PdfInfo::getDateFromInfoDict(const string_view& name) const
+{
+    auto datestr = this->getStringFromInfoDict(name);
+    PdfDate date;
+    if (datestr == nullptr || !PdfDate::TryParse(*datestr, date))
+        return nullptr;
+    else
+        return date;
+}
+
 void PdfInfo::SetAuthor(nullable<const PdfString&> value)
 {
     if (value.has_value())
@@ -147,20 +157,12 @@ nullable<const PdfString&> PdfInfo::GetProducer() const
 
 nullable<PdfDate> PdfInfo::GetCreationDate() const
 {
-    auto datestr = this->getStringFromInfoDict("CreationDate");
-    if (datestr == nullptr)
-        return nullptr;
-    else
-        return PdfDate::Parse(*datestr);
+    return this->getDateFromInfoDict("CreationDate");
 }
 
 nullable<PdfDate> PdfInfo::GetModDate() const
 {
-    auto datestr = this->getStringFromInfoDict("ModDate");
-    if (datestr == nullptr)
-        return nullptr;
-    else
-        return PdfDate::Parse(*datestr);
+    return this->getDateFromInfoDict("ModDate");
 }
 
 nullable<const PdfName&> PdfInfo::GetTrapped() const
diff --git a/src/pdfmm/base/PdfInfo.h b/src/pdfmm/base/PdfInfo.h
index 8f40fc7..a7a3c8d 100644
--- a/src/pdfmm/base/PdfInfo.h
+++ b/src/pdfmm/base/PdfInfo.h
@@ -134,6 +134,11 @@ private:
      *  \return a value from the info dictionary
      */
     nullable<const PdfString&> getStringFromInfoDict(const std::string_view& name) const;
+
+    /** Get a date from the Info dictionary
+     *  \returns the date, or nullptr if it's missing or invalid
+     */
+    nullable<PdfDate> getDateFromInfoDict(const std::string_view& name) const;
 };
 
 };
-- 
2.43.0


From ce0a707bd739d0ef22762288acfe427fd5db558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 35/66] fix: keywords: separator was part of the keyword

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e4d7560..de09995 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -462,13 +462,14 @@ vector<string> mm::ToPdfKeywordsList(const string_view& str)
     string token;
     while (it != end)
     {
+        auto tokenEnd = it;
         auto ch = (char32_t)utf8::next(it, end);
         switch (ch)
         {
             case U'\r':
             case U'\n':
             {
-                token = string(tokenStart, it);
+                token = string(tokenStart, tokenEnd);
                 if (token.length() != 0)
                     ret.push_back(std::move(token));
                 tokenStart = it;
-- 
2.43.0


From 54a809a056aab721ca4f64ee3371dd8df7574e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 36/66] fix: metadata: initialize before comparing, detect a
 packet that is not in sync

---
 src/pdfmm/base/PdfMetadata.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 3b41bd0..0fb4fe8 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -44,6 +44,7 @@ const nullable<PdfString>& PdfMetadata::GetTitle() const
 
 void PdfMetadata::SetAuthor(nullable<const PdfString&> author, bool syncXMP)
 {
+    ensureInitialized();
     if (m_metadata.Author == author)
         return;
 
@@ -288,6 +289,7 @@ void PdfMetadata::SyncXMPMetadata(bool forceCreationXMP)
 
 unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         return nullptr;
 
@@ -303,6 +305,7 @@ unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 
 void PdfMetadata::EnsureXMPMetadata()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         mm::UpdateOrCreateXMPMetadata(m_packet, m_metadata);
 
@@ -381,7 +384,16 @@ void PdfMetadata::ensureInitialized()
         if (m_metadata.ModDate == nullptr)
             m_metadata.ModDate = xmpMetadata.ModDate;
         m_metadata.PdfaLevel = xmpMetadata.PdfaLevel;
-        m_xmpSynced = true;
+
+        // The values found in the Info dictionary take the precedence
+        m_xmpSynced = m_metadata.Title == xmpMetadata.Title
+            && m_metadata.Author == xmpMetadata.Author
+            && m_metadata.Subject == xmpMetadata.Subject
+            && m_metadata.Keywords == xmpMetadata.Keywords
+            && m_metadata.Creator == xmpMetadata.Creator
+            && m_metadata.Producer == xmpMetadata.Producer
+            && m_metadata.CreationDate == xmpMetadata.CreationDate
+            && m_metadata.ModDate == xmpMetadata.ModDate;
     }
 
     m_initialized = true;
-- 
2.43.0


From 74406b1abe7055c8834f022eddf07f394ecd3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 37/66] fix: xmp: plain text content, creator tool, invalid
 dates, default namespaces, keep unchanged properties

---
 src/pdfmm/base/PdfXMPPacket.cpp |   2 +-
 src/pdfmm/private/XMPUtils.cpp  | 133 ++++++++++++++++++++++++--------
 src/pdfmm/private/XmlUtils.cpp  |  16 +++-
 3 files changed, 112 insertions(+), 39 deletions(-)

diff --git a/src/pdfmm/base/PdfXMPPacket.cpp b/src/pdfmm/base/PdfXMPPacket.cpp
index 492e3bd..6dbf7c7 100644
--- a/src/pdfmm/base/PdfXMPPacket.cpp
+++ b/src/pdfmm/base/PdfXMPPacket.cpp
@@ -235,7 +235,7 @@ void normalizeElement(xmlDocPtr doc, xmlNodePtr elem)
             continue;
 
         auto value = utls::GetAttributeValue(attr);
-        if (xmlNewChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
+        if (xmlNewTextChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
             THROW_LIBXML_EXCEPTION("Can't create value replacement node");
 
         attribsToRemove.push_back(attr);
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index f653d4d..d75c10e 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -8,6 +8,8 @@
 #include "XMPUtils.h"
 #include "XmlUtils.h"
 
+#include <utfcpp/utf8.h>
+
 using namespace std;
 using namespace mm;
 using namespace utls;
@@ -35,6 +37,7 @@ enum class PdfANamespaceKind
     PdfAId,
 };
 
+static void getXMPMetadata(xmlNodePtr description, PdfXMPMetadata& metadata);
 static void setXMPMetadata(xmlDocPtr doc, xmlNodePtr xmpmeta, const PdfXMPMetadata& metatata);
 static void addXMPProperty(xmlDocPtr doc, xmlNodePtr description,
     XMPMetadataKind property, const string& value);
@@ -46,6 +49,7 @@ static PdfALevel getPDFALevelFromString(const string_view& level);
 static void getPdfALevelComponents(PdfALevel level, string& levelStr, string& conformanceStr, string& revision);
 static nullable<PdfString> getListElementText(xmlNodePtr elem);
 static nullable<PdfString> getElementText(xmlNodePtr elem);
+static void addTextContent(xmlNodePtr elem, const string_view& text);
 
 PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPPacket>& packet)
 {
@@ -61,8 +65,15 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
         return metadata;
     }
 
+    getXMPMetadata(description, metadata);
+    return metadata;
+}
+
+void getXMPMetadata(xmlNodePtr description, PdfXMPMetadata& metadata)
+{
     xmlNodePtr childElement = nullptr;
     nullable<PdfString> text;
+    PdfDate date;
 
     {
         nullable<string> pdfaid_part;
@@ -97,21 +108,21 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
 
     childElement = utls::FindChildElement(description, "xmp", "CreatorTool");
     if (childElement != nullptr)
-        metadata.Creator = getListElementText(childElement);
+        metadata.Creator = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "pdf", "Producer");
     if (childElement != nullptr)
         metadata.Producer = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "xmp", "CreateDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.CreationDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+            && PdfDate::TryParseW3C(*text, date))
+        metadata.CreationDate = date;
 
     childElement = utls::FindChildElement(description, "xmp", "ModifyDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.ModDate = PdfDate::ParseW3C(*text);
-
-    return metadata;
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+            && PdfDate::TryParseW3C(*text, date))
+        metadata.ModDate = date;
 }
 
 void mm::UpdateOrCreateXMPMetadata(unique_ptr<PdfXMPPacket>& packet, const PdfXMPMetadata& metatata)
@@ -125,34 +136,70 @@ void mm::UpdateOrCreateXMPMetadata(unique_ptr<PdfXMPPacket>& packet, const PdfXM
 
 void setXMPMetadata(xmlDocPtr doc, xmlNodePtr description, const PdfXMPMetadata& metatata)
 {
-    removeXMPProperty(description, XMPMetadataKind::Title);
-    removeXMPProperty(description, XMPMetadataKind::Author);
-    removeXMPProperty(description, XMPMetadataKind::Subject);
-    removeXMPProperty(description, XMPMetadataKind::Keywords);
-    removeXMPProperty(description, XMPMetadataKind::Creator);
-    removeXMPProperty(description, XMPMetadataKind::Producer);
-    removeXMPProperty(description, XMPMetadataKind::CreationDate);
-    removeXMPProperty(description, XMPMetadataKind::ModDate);
+    // Properties that already have the requested value are left
+    // untouched: they may have more content, like further authors
+    // or translations of the title
+    PdfXMPMetadata current;
+    getXMPMetadata(description, current);
+    if (metatata.Title != current.Title)
+    {
+        removeXMPProperty(description, XMPMetadataKind::Title);
+        if (metatata.Title.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::Title, metatata.Title->GetString());
+    }
+
+    if (metatata.Author != current.Author)
+    {
+        removeXMPProperty(description, XMPMetadataKind::Author);
+        if (metatata.Author.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::Author, metatata.Author->GetString());
+    }
+
+    if (metatata.Subject != current.Subject)
+    {
+        removeXMPProperty(description, XMPMetadataKind::Subject);
+        if (metatata.Subject.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::Subject, metatata.Subject->GetString());
+    }
+
+    if (metatata.Keywords != current.Keywords)
+    {
+        removeXMPProperty(description, XMPMetadataKind::Keywords);
+        if (metatata.Keywords.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::Keywords, metatata.Keywords->GetString());
+    }
+
+    if (metatata.Creator != current.Creator)
+    {
+        removeXMPProperty(description, XMPMetadataKind::Creator);
+        if (metatata.Creator.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::Creator, metatata.Creator->GetString());
+    }
+
+    if (metatata.Producer != current.Producer)
+    {
+        removeXMPProperty(description, XMPMetadataKind::Producer);
+        if (metatata.Producer.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::Producer, metatata.Producer->GetString());
+    }
+
+    if (metatata.CreationDate == nullptr || metatata.CreationDate != current.CreationDate)
+    {
+        removeXMPProperty(description, XMPMetadataKind::CreationDate);
+        if (metatata.CreationDate.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::CreationDate, metatata.CreationDate->ToStringW3C().GetString());
+    }
+
+    if (metatata.ModDate == nullptr || metatata.ModDate != current.ModDate)
+    {
+        removeXMPProperty(description, XMPMetadataKind::ModDate);
+        if (metatata.ModDate.has_value())
+            addXMPProperty(doc, description, XMPMetadataKind::ModDate, metatata.ModDate->ToStringW3C().GetString());
+    }
+
     removeXMPProperty(description, XMPMetadataKind::PdfALevel);
     removeXMPProperty(description, XMPMetadataKind::PdfAConformance);
     removeXMPProperty(description, XMPMetadataKind::PdfARevision);
-    if (metatata.Title.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::Title, metatata.Title->GetString());
-    if (metatata.Author.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::Author, metatata.Author->GetString());
-    if (metatata.Subject.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::Subject, metatata.Subject->GetString());
-    if (metatata.Keywords.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::Keywords, metatata.Keywords->GetString());
-    if (metatata.Creator.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::Creator, metatata.Creator->GetString());
-    if (metatata.Producer.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::Producer, metatata.Producer->GetString());
-    if (metatata.CreationDate.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::CreationDate, metatata.CreationDate->ToStringW3C().GetString());
-    if (metatata.ModDate.has_value())
-        addXMPProperty(doc, description, XMPMetadataKind::ModDate, metatata.ModDate->ToStringW3C().GetString());
-
     if (metatata.PdfaLevel != PdfALevel::Unknown)
     {
         // Set actual PdfA level
@@ -283,7 +330,7 @@ void addXMPProperty(xmlDocPtr doc, xmlNodePtr description,
         }
         default:
         {
-            xmlNodeSetContent(element, XMLCHAR values[0].data());
+            addTextContent(element, values[0]);
             break;
         }
     }
@@ -330,7 +377,7 @@ void utls::SetListNodeContent(xmlDocPtr doc, xmlNodePtr node, XMPListType seqTyp
                 THROW_LIBXML_EXCEPTION(utls::Format("Can't set xml:lang attribute on rdf:li node"));
         }
 
-        xmlNodeSetContent(liElem, XMLCHAR view.data());
+        addTextContent(liElem, view);
     }
 
     newNode = innerElem->children;
@@ -514,3 +561,21 @@ nullable<PdfString> getElementText(xmlNodePtr elem)
     else
         return PdfString(*text);
 }
+
+void addTextContent(xmlNodePtr elem, const string_view& text)
+{
+    // NOTE: xmlNodeAddContent() takes plain text, opposed to
+    // xmlNodeSetContent() that would expand entities. Characters
+    // that can't be represented in XML are skipped
+    string content;
+    auto it = text.begin();
+    auto end = text.end();
+    while (it != end)
+    {
+        auto ch = (char32_t)utf8::next(it, end);
+        if (ch >= 0x20 ? ch != 0xFFFE && ch != 0xFFFF : ch == U'\t' || ch == U'\n' || ch == U'\r')
+            utf8::append(ch, content);
+    }
+
+    xmlNodeAddContent(elem, XMLCHAR content.data());
+}
diff --git a/src/pdfmm/private/XmlUtils.cpp b/src/pdfmm/private/XmlUtils.cpp
index a2a9875..d59823c 100644
--- a/src/pdfmm/private/XmlUtils.cpp
+++ b/src/pdfmm/private/XmlUtils.cpp
@@ -10,6 +10,9 @@
 using namespace std;
 using namespace mm;
 
+// The prefix is null in default namespaces
+static string_view getPrefix(xmlNsPtr ns);
+
 xmlNodePtr utls::FindChildElement(xmlNodePtr element, const std::string_view& name)
 {
     return FindChildElement(element, { }, name);
@@ -20,7 +23,7 @@ xmlNodePtr utls::FindChildElement(xmlNodePtr element, const string_view& prefix,
     for (auto child = xmlFirstElementChild(element); child != nullptr; child = xmlNextElementSibling(child))
     {
         if (child->ns != nullptr
-            && prefix == (const char*)child->ns->prefix
+            && prefix == getPrefix(child->ns)
             && name == (const char*)child->name)
         {
             return child;
@@ -40,7 +43,7 @@ xmlNodePtr utls::FindSiblingNode(xmlNodePtr element, const string_view& prefix,
     for (auto sibling = xmlNextElementSibling(element); sibling; sibling = xmlNextElementSibling(sibling))
     {
         if ((prefix.length() == 0 || (sibling->ns != nullptr
-                && prefix == (const char*)sibling->ns->prefix))
+                && prefix == getPrefix(sibling->ns)))
             && name == (const char*)sibling->name)
         {
             return sibling;
@@ -72,7 +75,7 @@ nullable<string> utls::FindAttribute(xmlNodePtr element, const string_view& pref
     for (xmlAttrPtr attr = element->properties; attr != nullptr; attr = attr->next)
     {
         if ((prefix.length() == 0 || (attr->ns != nullptr
-                && prefix == (const char*)attr->ns->prefix))
+                && prefix == getPrefix(attr->ns)))
             && name == (const char*)attr->name)
         {
             found = attr;
@@ -110,7 +113,7 @@ string utls::GetAttributeName(xmlAttrPtr attr)
 
 string utls::GetNodeName(xmlNodePtr node)
 {
-    if (node->ns == nullptr)
+    if (node->ns == nullptr || node->ns->prefix == nullptr)
     {
         return (const char*)node->name;
     }
@@ -127,3 +130,8 @@ void utls::InitXml()
 {
     LIBXML_TEST_VERSION;
 }
+
+string_view getPrefix(xmlNsPtr ns)
+{
+    return ns->prefix == nullptr ? string_view() : string_view((const char*)ns->prefix);
+}
-- 
2.43.0


From 1852659d82eb149a5d9d64e8c2bf366acbcfd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 38/66] fix: encryption: validate dictionaries, key lengths,
 padding after authentication, empty owner passwords, random keys and vectors

---
 src/pdfmm/base/PdfEncrypt.cpp | 336 ++++++++++++++++++++--------------
 src/pdfmm/base/PdfEncrypt.h   |   6 +-
 2 files changed, 203 insertions(+), 139 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 507a095..961f4e6 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -27,6 +27,7 @@
 #include <openssl/opensslconf.h>
 #include <openssl/md5.h>
 #include <openssl/evp.h>
+#include <openssl/rand.h>
 
 using namespace std;
 using namespace mm;
@@ -82,6 +83,13 @@ struct OpenSSLInit
 #define AES_IV_LENGTH 16
 #define AES_BLOCK_SIZE 16
 
+// Fill a buffer with unpredictable bytes
+static void generateRandomBytes(unsigned char* buffer, size_t size)
+{
+    if (RAND_bytes(buffer, (int)size) != 1)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error generating random bytes");
+}
+
 namespace mm
 {
 
@@ -274,6 +282,8 @@ private:
  */
 class PdfAESInputStream : public InputStream
 {
+    static constexpr size_t BUFFER_SIZE = 4096;
+
 public:
     PdfAESInputStream(InputStream& inputStream, size_t inputLen, unsigned char* key, unsigned keylen) :
         m_InputStream(&inputStream),
@@ -281,7 +291,9 @@ public:
         m_inputEof(false),
         m_init(true),
         m_keyLen(keylen),
-        m_drainLeft(-1)
+        m_outBuffer(BUFFER_SIZE + 2 * AES_BLOCK_SIZE),
+        m_outOffset(0),
+        m_outLen(0)
     {
         m_ctx = EVP_CIPHER_CTX_new();
         if (m_ctx == nullptr)
@@ -298,20 +310,38 @@ public:
 protected:
     size_t readBuffer(char* buffer, size_t len, bool& eof) override
     {
-        int outlen = 0;
-        size_t drainLen;
-        size_t read;
-        if (m_inputEof)
-            goto DrainBuffer;
+        // The cipher works on whole blocks, so decrypted data that doesn't
+        // fit the buffer is kept for the following reads
+        while (m_outOffset == m_outLen && !m_inputEof)
+            decryptChunk();
+
+        size_t count = std::min(len, m_outLen - m_outOffset);
+        std::memcpy(buffer, m_outBuffer.data() + m_outOffset, count);
+        m_outOffset += count;
+        eof = m_inputEof && m_outOffset == m_outLen;
+        return count;
+    }
 
+private:
+    void decryptChunk()
+    {
         int rc;
         if (m_init)
         {
+            if (m_inputLen == 0)
+            {
+                // Nothing was encrypted
+                m_inputEof = true;
+                return;
+            }
+
             // Read the initialization vector separately first
             char iv[AES_IV_LENGTH];
             bool streameof;
-            read = ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof);
-            if (read != AES_IV_LENGTH)
+            if (m_inputLen < AES_IV_LENGTH)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
+
+            if (ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof) != AES_IV_LENGTH)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
 
             const EVP_CIPHER* cipher;
@@ -341,45 +371,30 @@ protected:
             m_init = false;
         }
 
+        char buffer[BUFFER_SIZE];
         bool streameof;
-        read = ReadBuffer(*m_InputStream, buffer, std::min(len, m_inputLen), streameof);
+        size_t read = ReadBuffer(*m_InputStream, buffer, std::min(m_inputLen, size_t(BUFFER_SIZE)), streameof);
         m_inputLen -= read;
 
         // Quote openssl.org: "the decrypted data buffer out passed to EVP_DecryptUpdate() should have sufficient room
         //  for (inl + cipher_block_size) bytes unless the cipher block size is 1 in which case inl bytes is sufficient."
-        // So we need to create a buffer that is bigger than len.
-        m_tempBuffer.resize(len + AES_BLOCK_SIZE);
-        rc = EVP_DecryptUpdate(m_ctx, m_tempBuffer.data(), &outlen, (unsigned char*)buffer, (int)read);
-
+        int outlen;
+        rc = EVP_DecryptUpdate(m_ctx, m_outBuffer.data(), &outlen, (unsigned char*)buffer, (int)read);
         if (rc != 1)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data");
 
-        PDFMM_ASSERT((size_t)outlen <= len);
-        std::memcpy(buffer, m_tempBuffer.data(), (size_t)outlen);
+        m_outOffset = 0;
+        m_outLen = (size_t)outlen;
 
         if (m_inputLen == 0 || streameof)
         {
             m_inputEof = true;
-
-            int drainLeft;
-            rc = EVP_DecryptFinal_ex(m_ctx, m_tempBuffer.data(), &drainLeft);
+            rc = EVP_DecryptFinal_ex(m_ctx, m_outBuffer.data() + m_outLen, &outlen);
             if (rc != 1)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data padding");
 
-            m_drainLeft = (size_t)drainLeft;
-            goto DrainBuffer;
+            m_outLen += (size_t)outlen;
         }
-
-        return outlen;
-
-    DrainBuffer:
-        drainLen = std::min(len - outlen, m_drainLeft);
-        std::memcpy(buffer + outlen, m_tempBuffer.data(), drainLen);
-        m_drainLeft -= (int)drainLen;
-        if (m_drainLeft == 0)
-            eof = true;
-
-        return outlen + drainLen;
     }
 
 private:
@@ -390,8 +405,9 @@ private:
     bool m_init;
     unsigned char m_key[32];
     unsigned m_keyLen;
-    vector<unsigned char> m_tempBuffer;
-    size_t m_drainLeft;
+    vector<unsigned char> m_outBuffer;
+    size_t m_outOffset;
+    size_t m_outLen;
 };
 
 }
@@ -451,61 +467,76 @@ unique_ptr<PdfEncrypt> PdfEncrypt::Create(const string_view& userPassword,
     }
 }
 
+// Get the key of an encryption dictionary as a string of the needed length
+static PdfString getEncryptString(const PdfDictionary& dict, const string_view& key, size_t length)
+{
+    auto str = dict.MustFindKey(key).GetString();
+    if (str.GetRawData().size() < length)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Key /{} in encryption dictionary is too short", key);
+
+    return str;
+}
+
+// Get the method of the given crypt filter, Identity if there's no filter
+static PdfName getCryptFilterMethod(const PdfDictionary& dict, const string_view& key, const PdfDictionary*& filter)
+{
+    filter = nullptr;
+    const PdfObject* obj = dict.FindKey(key);
+    if (obj == nullptr || !obj->IsName() || obj->GetName() == "Identity")
+        return PdfName("Identity");
+
+    const PdfObject* filters = dict.FindKey("CF");
+    const PdfObject* filterObj;
+    if (filters == nullptr || !filters->IsDictionary()
+        || (filterObj = filters->GetDictionary().FindKey(obj->GetName())) == nullptr || !filterObj->IsDictionary())
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Missing crypt filter in encryption dictionary");
+    }
+
+    filter = &filterObj->GetDictionary();
+    const PdfObject* method = filter->FindKey("CFM");
+    if (method == nullptr || !method->IsName())
+        return PdfName("None");
+
+    return method->GetName();
+}
+
 unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
 {
-    if (!encryptObj.GetDictionary().HasKey(PdfName::KeyFilter) ||
-        encryptObj.GetDictionary().GetKey(PdfName::KeyFilter)->GetName() != "Standard")
+    const PdfDictionary* encryptDict;
+    if (!encryptObj.TryGetDictionary(encryptDict))
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "The encryption dictionary is not a dictionary");
+
+    auto& dict = *encryptDict;
+    const PdfObject* filterObj = dict.FindKey(PdfName::KeyFilter);
+    if (filterObj == nullptr || !filterObj->IsName())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Encryption dictionary does not have a key /Filter");
+
+    if (filterObj->GetName() != "Standard")
     {
-        if (encryptObj.GetDictionary().HasKey(PdfName::KeyFilter))
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Unsupported encryption filter: {}",
-                encryptObj.GetDictionary().GetKey(PdfName::KeyFilter)->GetName().GetString());
-        else
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Encryption dictionary does not have a key /Filter");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Unsupported encryption filter: {}",
+            filterObj->GetName().GetString());
     }
 
-    int lV;
-    int64_t length;
-    int rValue;
+    int64_t lV;
+    int64_t rValue;
+    int64_t length = 0;
     PdfPermissions pValue;
-    PdfString oValue;
-    PdfString uValue;
-    PdfName cfmName;
     bool encryptMetadata = true;
 
     try
     {
-        lV = static_cast<int>(encryptObj.GetDictionary().MustGetKey("V").GetNumber());
-        rValue = static_cast<int>(encryptObj.GetDictionary().MustGetKey("R").GetNumber());
+        lV = dict.MustFindKey("V").GetNumber();
+        rValue = dict.MustFindKey("R").GetNumber();
+        pValue = static_cast<PdfPermissions>(dict.MustFindKey("P").GetNumber());
 
-        pValue = static_cast<PdfPermissions>(encryptObj.GetDictionary().MustGetKey("P").GetNumber());
+        const PdfObject* lengthObj = dict.FindKey("Length");
+        if (lengthObj != nullptr && lengthObj->IsNumber())
+            length = lengthObj->GetNumber();
 
-        oValue = encryptObj.GetDictionary().MustGetKey("O").GetString();
-        uValue = encryptObj.GetDictionary().MustGetKey("U").GetString();
-
-        if (encryptObj.GetDictionary().HasKey("Length"))
-            length = encryptObj.GetDictionary().GetKey("Length")->GetNumber();
-        else
-            length = 0;
-
-        const PdfObject* encryptMetadataObj = encryptObj.GetDictionary().GetKey("EncryptMetadata");
+        const PdfObject* encryptMetadataObj = dict.FindKey("EncryptMetadata");
         if (encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
             encryptMetadata = encryptMetadataObj->GetBool();
-
-        auto stmfObj = encryptObj.GetDictionary().GetKey("StmF");
-        if (stmfObj != nullptr && stmfObj->IsName())
-        {
-            const PdfObject* obj = encryptObj.GetDictionary().GetKey("CF");
-            if (obj != nullptr && obj->IsDictionary())
-            {
-                obj = obj->GetDictionary().GetKey(stmfObj->GetName());
-                if (obj != nullptr && obj->IsDictionary())
-                {
-                    obj = obj->GetDictionary().GetKey("CFM");
-                    if (obj != nullptr && obj->IsName())
-                        cfmName = obj->GetName();
-                }
-            }
-        }
     }
     catch (PdfError& e)
     {
@@ -513,46 +544,73 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         throw e;
     }
 
-    if ((lV == 1) && (rValue == 2 || rValue == 3)
-        && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V1))
+    PdfEncryptAlgorithm algorithm = PdfEncryptAlgorithm::None;
+    if (lV == 1 && (rValue == 2 || rValue == 3))
+    {
+        algorithm = PdfEncryptAlgorithm::RC4V1;
+        length = (int64_t)PdfKeyLength::L40;
+    }
+    else if (lV == 2 && rValue == 3)
     {
-        return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V1, (int)PdfKeyLength::L40, encryptMetadata));
+        algorithm = PdfEncryptAlgorithm::RC4V2;
+        if (length == 0)
+            length = (int64_t)PdfKeyLength::L40;
+
+        // Check key length here to prevent stack-based buffer
+        // over-read later in this file
+        if (length < (int64_t)PdfKeyLength::L40 || length > (int64_t)PdfKeyLength::L128 || length % 8 != 0)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid key length in encryption dictionary");
     }
-    else if ((((lV == 2) && (rValue == 3)) || cfmName == "V2")
-        && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V2))
+    else if ((lV == 4 && rValue == 4) || (lV == 5 && (rValue == 5 || rValue == 6)))
     {
-        // length is int64_t. Please make changes in encryption algorithms
-        // Check key length length here to prevent
-        // stack-based buffer over-read later in this file
-        if (length > MD5_DIGEST_LENGTH * CHAR_BIT) // length in bits, md5 in bytes
+        const PdfDictionary* streamFilter;
+        const PdfDictionary* stringFilter;
+        auto method = getCryptFilterMethod(dict, "StmF", streamFilter);
+        auto stringMethod = getCryptFilterMethod(dict, "StrF", stringFilter);
+
+        // All the strings and all the streams are decrypted with the same
+        // method. Note that the key derivation doesn't depend on the crypt filter
+        if (method == stringMethod)
         {
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too large for MD5");
+            if (lV == 4 && method == "V2")
+            {
+                algorithm = PdfEncryptAlgorithm::RC4V2;
+                length = (int64_t)PdfKeyLength::L128;
+            }
+            else if (lV == 4 && method == "AESV2")
+                algorithm = PdfEncryptAlgorithm::AESV2;
+#ifdef PDFMM_HAVE_LIBIDN
+            else if (lV == 5 && method == "AESV3")
+                algorithm = rValue == 6 ? PdfEncryptAlgorithm::AESV3R6 : PdfEncryptAlgorithm::AESV3;
+#endif // PDFMM_HAVE_LIBIDN
         }
-        return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V2, static_cast<int>(length), encryptMetadata));
     }
-    else
+
+    if (algorithm == PdfEncryptAlgorithm::None || !PdfEncrypt::IsEncryptionEnabled(algorithm))
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Unsupported encryption method Version={} Revision={}", lV, rValue);
+
+    switch (algorithm)
     {
-        if ((lV == 4) && (rValue == 4)
-            && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV2))
+        case PdfEncryptAlgorithm::RC4V1:
+        case PdfEncryptAlgorithm::RC4V2:
         {
-            return unique_ptr<PdfEncrypt>(new PdfEncryptAESV2(oValue, uValue, pValue, encryptMetadata));
+            return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(getEncryptString(dict, "O", 32), getEncryptString(dict, "U", 32),
+                pValue, (int)rValue, algorithm, (int)length, encryptMetadata));
         }
 #ifdef PDFMM_HAVE_LIBIDN
-        else if ((lV == 5) && (
-            (rValue == 5 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3))
-            || (rValue == 6 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3R6))))
+        case PdfEncryptAlgorithm::AESV3:
+        case PdfEncryptAlgorithm::AESV3R6:
         {
-            PdfString permsValue = encryptObj.GetDictionary().GetKey("Perms")->GetString();
-            PdfString oeValue = encryptObj.GetDictionary().GetKey("OE")->GetString();
-            PdfString ueValue = encryptObj.GetDictionary().GetKey("UE")->GetString();
-
-            return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(oValue, oeValue, uValue,
-                ueValue, pValue, permsValue, (PdfAESV3Revision)rValue));
+            return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(
+                getEncryptString(dict, "O", 48), getEncryptString(dict, "OE", 32),
+                getEncryptString(dict, "U", 48), getEncryptString(dict, "UE", 32),
+                pValue, getEncryptString(dict, "Perms", 16), (PdfAESV3Revision)rValue, encryptMetadata));
         }
 #endif // PDFMM_HAVE_LIBIDN
-        else
+        default:
         {
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Unsupported encryption method Version={} Revision={}", lV , rValue);
+            return unique_ptr<PdfEncrypt>(new PdfEncryptAESV2(getEncryptString(dict, "O", 32), getEncryptString(dict, "U", 32),
+                pValue, encryptMetadata));
         }
     }
 }
@@ -762,7 +820,7 @@ void PdfEncryptMD5Base::ComputeEncryptionKey(const string_view& documentId,
 
     // If document metadata is not being encrypted, 
     // pass 4 bytes with the value 0xFFFFFFFF to the MD5 hash function.
-    if (!encryptMetadata)
+    if (!encryptMetadata && revision >= 4)
     {
         unsigned char noMetaAddition[4] = { 0xFF, 0xFF, 0xFF, 0xFF };
         status = MD5_Update(&ctx, noMetaAddition, 4);
@@ -935,8 +993,7 @@ void PdfEncryptMD5Base::GetMD5Binary(const unsigned char* data, unsigned length,
 
 void PdfEncryptMD5Base::GenerateInitialVector(unsigned char iv[]) const
 {
-    GetMD5Binary(reinterpret_cast<const unsigned char*>(m_documentId.c_str()),
-        static_cast<unsigned>(m_documentId.length()), iv);
+    generateRandomBytes(iv, AES_IV_LENGTH);
 }
     
 PdfString PdfEncryptMD5Base::GetMD5String(const unsigned char* buffer, unsigned length)
@@ -952,7 +1009,7 @@ void PdfEncryptMD5Base::CreateEncryptionDictionary(PdfDictionary& dictionary) co
 {
     dictionary.AddKey(PdfName::KeyFilter, PdfName("Standard"));
 
-    if (m_Algorithm == PdfEncryptAlgorithm::AESV2 || !m_EncryptMetadata)
+    if (m_rValue >= 4)
     {
         PdfDictionary cf;
         PdfDictionary stdCf;
@@ -1004,7 +1061,8 @@ void PdfEncryptRC4::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // ISO 32000: "If there is no owner password, use the user password instead"
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1106,7 +1164,6 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
     m_userPass = userPassword;
     m_ownerPass = ownerPassword;
     m_Algorithm = algorithm;
-    m_eKeyLength = keyLength;
     int intKeyLength = static_cast<int>(keyLength);
 
     switch (algorithm)
@@ -1132,10 +1189,12 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
         case PdfEncryptAlgorithm::AESV3R6:
 #endif // PDFMM_HAVE_LIBIDN
         {
-            break;
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Not a RC4 encryption algorithm");
         }
     }
 
+    m_eKeyLength = static_cast<PdfKeyLength>(m_keyLength * 8);
+
     // Init buffers
     std::memset(m_rc4key, 0, 16);
     std::memset(m_oValue, 0, 48);
@@ -1239,7 +1298,8 @@ void PdfEncryptAESV2::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // ISO 32000: "If there is no owner password, use the user password instead"
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1483,11 +1543,8 @@ void PdfEncryptSHABase::ComputeUserKey(const unsigned char* userpswd, size_t len
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandomBytes(vSalt, 8);
+    generateRandomBytes(kSalt, 8);
 
     // Generate hash for U
     unsigned char hashValue[32];
@@ -1531,11 +1588,8 @@ void PdfEncryptSHABase::ComputeOwnerKey(const unsigned char* ownerpswd, size_t l
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandomBytes(vSalt, 8);
+    generateRandomBytes(kSalt, 8);
 
     // Generate hash for O
     unsigned char hashValue[32];
@@ -1591,11 +1645,7 @@ void PdfEncryptSHABase::PreprocessPassword(const string_view& password, unsigned
 
 void PdfEncryptSHABase::ComputeEncryptionKey()
 {
-    // Seed once for all
-    srand((unsigned)time(nullptr));
-
-    for (unsigned i = 0; i < m_keyLength; i++)
-        m_encryptionKey[i] = rand() % 255;
+    generateRandomBytes(m_encryptionKey, m_keyLength);
 }
     
 bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const std::string_view& password,
@@ -1619,8 +1669,7 @@ bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const s
     
 void PdfEncryptSHABase::GenerateInitialVector(unsigned char iv[]) const
 {
-    for (int i = 0; i < AES_IV_LENGTH; i++)
-        iv[i] = rand() % 255;
+    generateRandomBytes(iv, AES_IV_LENGTH);
 }
     
 void PdfEncryptSHABase::CreateEncryptionDictionary(PdfDictionary& dictionary) const
@@ -1649,6 +1698,8 @@ void PdfEncryptSHABase::CreateEncryptionDictionary(PdfDictionary& dictionary) co
     dictionary.AddKey("CF", cf);
     dictionary.AddKey("StrF", PdfName("StdCF"));
     dictionary.AddKey("StmF", PdfName("StdCF"));
+    if (!m_EncryptMetadata)
+        dictionary.AddKey("EncryptMetadata", PdfVariant(false));
 
     dictionary.AddKey("P", PdfVariant(static_cast<int64_t>(this->GetPValue())));
 }
@@ -1663,7 +1714,7 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
     size_t userpswdLen;
     size_t ownerpswdLen;
     PreprocessPassword(m_userPass, userpswd, userpswdLen);
-    PreprocessPassword(m_ownerPass, ownerpswd, ownerpswdLen);
+    PreprocessPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd, ownerpswdLen);
 
     // Compute encryption key
     ComputeEncryptionKey();
@@ -1720,6 +1771,20 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
     EVP_CIPHER_CTX_free(aes);
 }
 
+void PdfEncryptAESV3::DecryptFileKey(const unsigned char* key, const unsigned char* value)
+{
+    // NOTE: Don't use the shared engine, that must keep its padding
+    AESCryptoEngine engine;
+    EVP_CIPHER_CTX* aes = engine.getEngine();
+    int outLen;
+    if (EVP_DecryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, key, nullptr) != 1 // iv zero
+        || EVP_CIPHER_CTX_set_padding(aes, 0) != 1 // no padding
+        || EVP_DecryptUpdate(aes, m_encryptionKey, &outLen, value, 32) != 1)
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decrypting the file encryption key");
+    }
+}
+
 bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_view& documentId)
 {
     (void)documentId;
@@ -1752,11 +1817,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
             // ISO 32000: "The 32-byte result is the key used to decrypt the 32-byte OE string using
             // AES-256 in CBC mode with no padding and an initialization vector of zero.
             // The 32-byte result is the file encryption key"
-            EVP_CIPHER_CTX* aes = m_aes->getEngine();
-            EVP_DecryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, 0); // iv zero
-            EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
-            int lOutLen;
-            EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_oeValue, 32);
+            DecryptFileKey(hashValue, m_oeValue);
         }
     }
     else
@@ -1769,11 +1830,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
         // ISO 32000: "The 32-byte result is the key used to decrypt the 32-byte UE string using
         // AES-256 in CBC mode with no padding and an initialization vector of zero.
         // The 32-byte result is the file encryption key"
-        EVP_CIPHER_CTX* aes = m_aes->getEngine();
-        EVP_DecryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, 0); // iv zero
-        EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
-        int lOutLen;
-        EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_ueValue, 32);
+        DecryptFileKey(hashValue, m_ueValue);
     }
 
     // TODO Validate permissions (or not...)
@@ -1837,9 +1894,11 @@ PdfEncryptAESV3::PdfEncryptAESV3(const PdfEncrypt& rhs)
     : PdfEncryptSHABase(rhs) {}
 
 PdfEncryptAESV3::PdfEncryptAESV3(PdfString oValue, PdfString oeValue, PdfString uValue,
-    PdfString ueValue, PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision revision) : PdfEncryptAESBase()
+    PdfString ueValue, PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision revision,
+    bool encryptMetadata) : PdfEncryptAESBase()
 {
     m_pValue = pValue;
+    m_EncryptMetadata = encryptMetadata;
     m_Algorithm = revision == PdfAESV3Revision::R6 ? PdfEncryptAlgorithm::AESV3R6 : PdfEncryptAlgorithm::AESV3;
 
     m_eKeyLength = PdfKeyLength::L256;
@@ -1895,7 +1954,8 @@ void PdfEncrypt::DecryptTo(charbuff& out, const bufferview& view, const PdfRefer
     // It was found like this in PdfString and PdfTokenizer
     // Fix it so it will allocate the exact amount of memory
     // needed, including RC4
-    size_t outBufferLen = view.size() - this->CalculateStreamOffset();
+    size_t offset = this->CalculateStreamOffset();
+    size_t outBufferLen = view.size() < offset ? 0 : view.size() - offset;
     out.resize(outBufferLen + 16 - (outBufferLen % 16));
     this->Decrypt(view.data(), view.size(), objref, out.data(), outBufferLen);
     out.resize(outBufferLen);
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index d4cb626..73d1714 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -624,7 +624,7 @@ class PdfEncryptAESV3 : public PdfEncryptSHABase, public PdfEncryptAESBase
 {
 public:
     PdfEncryptAESV3(PdfString oValue, PdfString oeValue, PdfString uValue, PdfString ueValue,
-        PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision rev);
+        PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision rev, bool encryptMetadata = true);
     PdfEncryptAESV3(const std::string_view& userPassword, const std::string_view& ownerPassword,
         PdfAESV3Revision rev, PdfPermissions protection = PdfPermissions::Default);
     PdfEncryptAESV3(const PdfEncrypt& rhs);
@@ -646,6 +646,10 @@ protected:
     bool Authenticate(const std::string_view& password, const std::string_view& documentId) override;
 
     void GenerateEncryptionKey(const std::string_view& documentId) override;
+
+private:
+    // Decrypt the file encryption key
+    void DecryptFileKey(const unsigned char* key, const unsigned char* value);
 };
 
 #endif // PDFMM_HAVE_LIBIDN
-- 
2.43.0


From 8adf7bca5bd580cae71b76c1b391b733a0e5a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:14 +0000
Subject: [PATCH 39/66] fix: contents of signatures are not encrypted when
 writing, and don't mark loaded dictionaries as changed

---
 src/pdfmm/base/PdfDictionary.cpp | 12 +++++++++++-
 src/pdfmm/base/PdfTokenizer.cpp  |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index e620d76..93cb354 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -221,6 +221,10 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             device.Write('\n');
     }
 
+    const PdfObject* typeObj = encrypt.HasEncrypt() ? this->getKey(PdfName::KeyType) : nullptr;
+    bool isSignature = typeObj != nullptr && typeObj->IsName()
+        && (typeObj->GetName() == "Sig" || typeObj->GetName() == "DocTimeStamp");
+
     for (auto& pair : m_Map)
     {
         if (pair.first != PdfName::KeyType)
@@ -229,7 +233,13 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write(' '); // write a separator
 
-            pair.second.GetVariant().Write(device, writeMode, encrypt, buffer);
+            // The contents of signatures are never encrypted
+            const PdfString* str;
+            if (pair.first == "Contents" && isSignature && pair.second.TryGetString(str) && str->IsHex())
+                str->Write(device, writeMode, PdfStatefulEncrypt(), buffer);
+            else
+                pair.second.GetVariant().Write(device, writeMode, encrypt, buffer);
+
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write('\n');
         }
diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index d8b97e5..ada8ca8 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -474,7 +474,7 @@ void PdfTokenizer::ReadDictionary(InputStreamDevice& device, PdfVariant& variant
             actualEncrypt = encrypt;
 
         val = PdfString::FromHexData({ contentsHexBuffer->size() ? contentsHexBuffer->data() : "", contentsHexBuffer->size() }, actualEncrypt);
-        dict.AddKey("Contents", std::move(val));
+        dict.AddKey("Contents", std::move(val), true);
     }
 }
 
-- 
2.43.0


From 4ab27b75e80ab709d4241b0e2218eca5b1058949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:14 +0000
Subject: [PATCH 40/66] fix: crypt filters and unencrypted metadata streams

---
 src/pdfmm/base/PdfEncrypt.cpp         | 56 ++++++++++++++++++++++++++-
 src/pdfmm/base/PdfEncrypt.h           | 17 ++++++++
 src/pdfmm/base/PdfFilter.cpp          |  4 +-
 src/pdfmm/base/PdfObject.cpp          | 12 ++++--
 src/pdfmm/base/PdfParserObject.cpp    | 19 +--------
 src/pdfmm/private/PdfFiltersPrivate.h | 23 +++++++++++
 6 files changed, 108 insertions(+), 23 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 961f4e6..8f9d5cc 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -12,6 +12,7 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfEncrypt.h"
 
+#include "PdfArray.h"
 #include "PdfDictionary.h"
 #include "PdfFilter.h"
 
@@ -417,11 +418,60 @@ PdfEncrypt::~PdfEncrypt() { }
 void PdfEncrypt::GenerateEncryptionKey(const PdfString& documentId)
 {
     GenerateEncryptionKey(documentId.GetRawData());
+    m_Authenticated = false;
 }
 
 bool PdfEncrypt::Authenticate(const string_view& password, const PdfString& documentId)
 {
-    return Authenticate(password, documentId.GetRawData());
+    m_Authenticated = Authenticate(password, documentId.GetRawData());
+    m_documentId = documentId.GetRawData();
+    return m_Authenticated;
+}
+
+bool PdfEncrypt::IsAuthenticated(const PdfString& documentId) const
+{
+    return m_Authenticated && m_documentId == documentId.GetRawData();
+}
+
+bool PdfEncrypt::IsStreamEncrypted(const PdfDictionary& dict) const
+{
+    // Cross-reference streams are never encrypted
+    auto typeObj = dict.FindKey(PdfName::KeyType);
+    if (typeObj != nullptr && typeObj->IsName() && typeObj->GetName() == "XRef")
+        return false;
+
+    // Crypt filters were introduced with revision 4
+    if (m_rValue < 4)
+        return true;
+
+    if (!m_EncryptMetadata && typeObj != nullptr && typeObj->IsName() && typeObj->GetName() == "Metadata")
+        return false;
+
+    auto filterObj = dict.FindKey(PdfName::KeyFilter);
+    if (filterObj == nullptr)
+        return true;
+
+    auto parmsObj = dict.FindKey("DecodeParms");
+    unsigned count = filterObj->IsArray() ? filterObj->GetArray().GetSize() : 1;
+    for (unsigned i = 0; i < count; i++)
+    {
+        auto obj = filterObj->IsArray() ? filterObj->GetArray().FindAt(i) : filterObj;
+        if (obj == nullptr || !obj->IsName() || obj->GetName() != "Crypt")
+            continue;
+
+        // The name of the crypt filter is Identity, if not given
+        auto cryptParms = parmsObj;
+        if (parmsObj != nullptr && parmsObj->IsArray())
+            cryptParms = i < parmsObj->GetArray().GetSize() ? parmsObj->GetArray().FindAt(i) : nullptr;
+
+        if (cryptParms == nullptr || !cryptParms->IsDictionary())
+            return false;
+
+        auto nameObj = cryptParms->GetDictionary().FindKey("Name");
+        return nameObj != nullptr && nameObj->IsName() && nameObj->GetName() != "Identity";
+    }
+
+    return true;
 }
 
 PdfEncryptAlgorithm PdfEncrypt::GetEnabledEncryptionAlgorithms()
@@ -640,7 +690,8 @@ PdfEncrypt::PdfEncrypt() :
     m_keyLength(0),
     m_rValue(0),
     m_pValue(PdfPermissions::None),
-    m_EncryptMetadata(true)
+    m_EncryptMetadata(true),
+    m_Authenticated(false)
 {
     memset(m_uValue, 0, 48);
     memset(m_oValue, 0, 48);
@@ -661,6 +712,7 @@ PdfEncrypt::PdfEncrypt(const PdfEncrypt& rhs)
     m_userPass = rhs.m_userPass;
     m_ownerPass = rhs.m_ownerPass;
     m_EncryptMetadata = rhs.m_EncryptMetadata;
+    m_Authenticated = rhs.m_Authenticated;
 }
 
 bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index 73d1714..03dd367 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -234,6 +234,22 @@ public:
      */
     bool Authenticate(const std::string_view& password, const PdfString& documentId);
 
+    /** Check if the encryption key was recovered by a successful authentication
+     * for a document with the given id. In that case the key can encrypt the document
+     * again, without the need to know all its passwords
+     */
+    bool IsAuthenticated(const PdfString& documentId) const;
+
+    /** Check if the key was recovered by a successful authentication
+     */
+    bool IsAuthenticated() const { return m_Authenticated; }
+
+    /** Check if the content of a stream is encrypted
+     *
+     * \param dict the dictionary of the stream
+     */
+    bool IsStreamEncrypted(const PdfDictionary& dict) const;
+
     /** Get the encryption algorithm of this object.
      * \returns the PdfEncryptAlgorithm of this object
      */
@@ -400,6 +416,7 @@ protected:
     bool m_EncryptMetadata;            // Is metadata encrypted
 
 private:
+    bool m_Authenticated;              // The encryption key is the one of a loaded document
     static PdfEncryptAlgorithm s_EnabledEncryptionAlgorithms; // Or'ed int containing the enabled encryption algorithms
 };
 
diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 84cf2f0..3424fcd 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -278,12 +278,14 @@ unique_ptr<PdfFilter> PdfFilterFactory::Create(PdfFilterType filterType)
         case PdfFilterType::RunLengthDecode:
             filter = new PdfRLEFilter();
             break;
+        case PdfFilterType::Crypt:
+            filter = new PdfCryptFilter();
+            break;
         case PdfFilterType::None:
         case PdfFilterType::DCTDecode:
         case PdfFilterType::CCITTFaxDecode:
         case PdfFilterType::JBIG2Decode:
         case PdfFilterType::JPXDecode:
-        case PdfFilterType::Crypt:
         default:
             break;
     }
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 88bcb08..77bc0f1 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -231,6 +231,9 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         }
     }
 
+    // The content of the stream may be not encrypted, differently from the strings
+    PdfStatefulEncrypt streamEncrypt;
+
     // The indirect length of an unmodified stream, that is still
     // in use by the object in the original file
     unique_ptr<PdfObject> length;
@@ -258,6 +261,9 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             m_Stream->MoveFrom(stream);
         }
 
+        if (encrypt_ != nullptr && encrypt_->IsStreamEncrypted(m_Variant.GetDictionary()))
+            streamEncrypt = encrypt;
+
         // Set length if it's not handled by the underlying provider
         const PdfObject* lengthObj;
         if (!isDirty && (lengthObj = m_Variant.GetDictionary().GetKey(PdfName::KeyLength)) != nullptr
@@ -269,8 +275,8 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         if (!m_Stream->GetProvider().IsLengthHandled())
         {
             size_t streamLength = m_Stream->GetLength();
-            if (encrypt.HasEncrypt())
-                streamLength = encrypt.CalculateStreamLength(streamLength);
+            if (streamEncrypt.HasEncrypt())
+                streamLength = streamEncrypt.CalculateStreamLength(streamLength);
 
             // Add the key without triggering SetDirty
             const_cast<PdfObject&>(*this).m_Variant.GetDictionary()
@@ -288,7 +294,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     }
 
     if (m_Stream != nullptr)
-        m_Stream->Write(device, encrypt);
+        m_Stream->Write(device, streamEncrypt);
 
     if (m_IndirectReference.IsIndirect())
         device.Write("endobj\n");
diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 0868de3..77aa790 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -175,6 +175,7 @@ void PdfParserObject::parseStream()
     // NOTE: The filters may be indirect objects that are
     // read from the device: do it before positioning it
     auto filterList = PdfFilterFactory::CreateFilterList(*this);
+    bool isEncrypted = m_Encrypt != nullptr && m_Encrypt->IsStreamEncrypted(m_Variant.GetDictionary());
 
     m_device->Seek(m_StreamOffset);
 
@@ -222,26 +223,10 @@ void PdfParserObject::parseStream()
     }
 
 ReadStream:
-    if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
-    {
-        // If metadata is not encrypted the Filter is set to "Crypt"
-        auto filterObj = this->m_Variant.GetDictionary().FindKey(PdfName::KeyFilter);
-        if (filterObj != nullptr && filterObj->IsArray())
-        {
-            auto& filters = filterObj->GetArray();
-            for (unsigned i = 0; i < filters.GetSize(); i++)
-            {
-                auto& obj = filters.MustFindAt(i);
-                if (obj.IsName() && obj.GetName() == "Crypt")
-                    m_Encrypt = nullptr;
-            }
-        }
-    }
-
     m_device->Seek(streamOffset);	// reset it before reading!
 
     // Set stream raw data without marking the object dirty
-    if (m_Encrypt != nullptr)
+    if (isEncrypted)
     {
         auto input = m_Encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
         getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), std::move(filterList));
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index dba40ac..5eb7491 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -154,6 +154,29 @@ private:
     int m_CodeLen;
 };
 
+/** The crypt filter. The data is already decrypted when
+ *  the stream is read, so the data is left as it is
+ */
+class PdfCryptFilter final : public PdfFilter
+{
+public:
+    inline bool CanEncode() const override { return true; }
+
+    void BeginEncodeImpl() override { }
+
+    void EncodeBlockImpl(const char* buffer, size_t len) override { GetStream()->Write(buffer, len); }
+
+    void EndEncodeImpl() override { }
+
+    inline bool CanDecode() const override { return true; }
+
+    void BeginDecodeImpl(const PdfDictionary*) override { }
+
+    void DecodeBlockImpl(const char* buffer, size_t len) override { GetStream()->Write(buffer, len); }
+
+    inline PdfFilterType GetType() const override { return PdfFilterType::Crypt; }
+};
+
 /** The LZW filter.
  */
 class PdfLZWFilter final : public PdfFilter
-- 
2.43.0


From 7b51d6a90860152e2e379e7f82cf2905fc8fbf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:14 +0000
Subject: [PATCH 41/66] fix: keep the encryption of loaded documents when
 saving and updating them

---
 src/pdfmm/base/PdfIndirectObjectList.cpp |  3 ++
 src/pdfmm/base/PdfMemDocument.cpp        |  5 +--
 src/pdfmm/base/PdfParser.cpp             | 25 +++++++++---
 src/pdfmm/base/PdfWriter.cpp             | 50 +++++++++++++++++++++---
 src/pdfmm/base/PdfWriter.h               |  1 +
 5 files changed, 71 insertions(+), 13 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index c04076b..9788ee0 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -107,6 +107,9 @@ void PdfIndirectObjectList::Clear()
         delete obj;
 
     m_Objects.clear();
+    m_FreeObjects.clear();
+    m_unavailableObjects.clear();
+    m_objectStreams.clear();
     m_ObjectCount = 1;
     m_StreamFactory = nullptr;
 }
diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 74afde7..ac85431 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -64,9 +64,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_PrevXRefOffset(rhs.m_PrevXRefOffset),
     m_MagicOffset(rhs.m_MagicOffset)
 {
-    auto encryptObj = GetTrailer().GetDictionary().FindKey("Encrypt");
-    if (encryptObj != nullptr)
-        m_Encrypt = PdfEncrypt::CreateFromObject(*encryptObj);
+    if (rhs.m_Encrypt != nullptr)
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*rhs.m_Encrypt);
 }
 
 void PdfMemDocument::Clear()
diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index ef7164f..2638203 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -623,6 +623,7 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 void PdfParser::ReadObjects(InputStreamDevice& device)
 {
     PDFMM_ASSERT(m_Trailer != nullptr);
+    unsigned encryptNum = 0;
     // Check for encryption and make sure that the encryption object
     // is loaded before all other objects
     PdfObject* encrypt = m_Trailer->GetDictionary().GetKey("Encrypt");
@@ -635,7 +636,7 @@ void PdfParser::ReadObjects(InputStreamDevice& device)
         if (encrypt->IsReference())
         {
             unsigned i = encrypt->GetReference().ObjectNumber();
-            if (i <= 0 || i >= m_entries.GetSize())
+            if (i <= 0 || i >= m_entries.GetSize() || m_entries[i].Type != XRefEntryType::InUse)
             {
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict,
                     "Encryption dictionary references a nonexistent object {} {} R",
@@ -649,7 +650,7 @@ void PdfParser::ReadObjects(InputStreamDevice& device)
                 obj->Parse();
                 // NOTE: Never add the encryption dictionary to m_Objects
                 // we create a new one, if we need it for writing
-                m_entries[i].Parsed = false;
+                encryptNum = i;
                 m_Encrypt = PdfEncrypt::CreateFromObject(*obj);
             }
             catch (PdfError& e)
@@ -681,6 +682,15 @@ void PdfParser::ReadObjects(InputStreamDevice& device)
         }
     }
 
+    if (encryptNum != 0)
+    {
+        // Don't use the number of the encryption
+        // dictionary for other objects
+        m_entries[encryptNum].Parsed = false;
+        m_Objects->m_unavailableObjects.insert(encryptNum);
+        m_Objects->TryIncrementObjectCount(PdfReference(encryptNum, 0));
+    }
+
     ReadObjectsInternal(device);
 }
 
@@ -783,7 +793,7 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
 
             }
         }
-        else if (i != 0) // Unparsed
+        else if (i != 0 && m_Objects->m_unavailableObjects.find(i) == m_Objects->m_unavailableObjects.end()) // Unparsed
         {
             m_Objects->AddFreeObject(PdfReference(i, 1));
         }
@@ -909,10 +919,15 @@ void PdfParser::FindToken2(InputStreamDevice& device, const char* token, const s
 
 const PdfString& PdfParser::GetDocumentId()
 {
-    if (!m_Trailer->GetDictionary().HasKey("ID"))
+    auto idObj = m_Trailer->GetDictionary().FindKey("ID");
+    const PdfObject* id;
+    if (idObj == nullptr || !idObj->IsArray() || idObj->GetArray().GetSize() == 0
+        || (id = idObj->GetArray().FindAt(0)) == nullptr || !id->IsString())
+    {
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "No document ID found in trailer");
+    }
 
-    return m_Trailer->GetDictionary().GetKey("ID")->GetArray()[0].GetString();
+    return id->GetString();
 }
 
 void PdfParser::UpdateDocumentVersion()
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 2fd17f0..3762097 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -41,7 +41,8 @@ PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, P
     m_XRefOffset(0),
     m_MagicOffset(0),
     m_IncrementalUpdate(false),
-    m_rewriteXRefTable(false)
+    m_rewriteXRefTable(false),
+    m_keepIdentifier(false)
 {
 }
 
@@ -77,10 +78,41 @@ void PdfWriter::Write(OutputStreamDevice& device)
     CreateFileIdentifier(m_identifier, *m_Trailer, &m_originalIdentifier);
 
     // setup encrypt dictionary
+    m_keepIdentifier = m_IncrementalUpdate;
+    if (m_IncrementalUpdate && (m_Encrypt != nullptr) != m_Trailer->GetDictionary().HasKey("Encrypt"))
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::CannotEncryptedForUpdate,
+            "The encryption of a document can't be changed with an update");
+    }
+
     if (m_Encrypt != nullptr)
     {
-        m_Encrypt->GenerateEncryptionKey(m_identifier);
+        if (m_Encrypt->IsAuthenticated())
+        {
+            // The key of a loaded document is kept, since not all
+            // its passwords are known. It depends on the identifier
+            if (!m_Encrypt->IsAuthenticated(m_originalIdentifier))
+            {
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::CannotEncryptedForUpdate,
+                    "The identifier of an encrypted document can't be changed");
+            }
 
+            m_keepIdentifier = true;
+        }
+        else if (m_IncrementalUpdate)
+        {
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::CannotEncryptedForUpdate,
+                "The encryption of a document can't be changed with an update");
+        }
+        else
+        {
+            m_Encrypt->GenerateEncryptionKey(m_identifier);
+        }
+    }
+
+    // An update refers to the existing encryption dictionary
+    if (m_Encrypt != nullptr && !m_IncrementalUpdate)
+    {
         // Add our own Encryption dictionary
         m_EncryptObj = &m_Objects->CreateDictionaryObject();
         m_Encrypt->CreateEncryptionDictionary(m_EncryptObj->GetDictionary());
@@ -197,6 +229,12 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
         for (auto& freeObjectRef : objects.GetFreeObjects())
             numbers.insert(freeObjectRef.ObjectNumber());
 
+        // The encryption dictionary is still in use in an update
+        PdfReference encryptRef;
+        auto encryptObj = m_Trailer->GetDictionary().GetKey("Encrypt");
+        if (m_IncrementalUpdate && encryptObj != nullptr && encryptObj->TryGetReference(encryptRef))
+            numbers.insert(encryptRef.ObjectNumber());
+
         for (auto objNum : objects.m_unavailableObjects)
         {
             if (objNum != 0 && numbers.find(objNum) == numbers.end())
@@ -226,12 +264,14 @@ void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySize
         if (m_Trailer->GetDictionary().HasKey("Info"))
             trailer.GetDictionary().AddKey("Info", *m_Trailer->GetDictionary().GetKey("Info"));
 
-        if (m_EncryptObj != nullptr)
+        if (m_IncrementalUpdate && m_Encrypt != nullptr)
+            trailer.GetDictionary().AddKey("Encrypt", *m_Trailer->GetDictionary().GetKey("Encrypt"));
+        else if (m_EncryptObj != nullptr)
             trailer.GetDictionary().AddKey(PdfName("Encrypt"), m_EncryptObj->GetIndirectReference());
 
         PdfArray array;
         // The ID is the same unless the PDF was incrementally updated
-        if (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty())
+        if (m_keepIdentifier && !m_originalIdentifier.IsEmpty())
             array.Add(m_originalIdentifier);
         else
             array.Add(m_identifier);
@@ -257,7 +297,7 @@ void PdfWriter::CreateFileIdentifier(PdfString& identifier, const PdfObject& tra
 
     const PdfObject* idObj;
     if (originalIdentifier != nullptr &&
-        (idObj = trailer.GetDictionary().FindKey("ID")) != nullptr)
+        (idObj = trailer.GetDictionary().FindKey("ID")) != nullptr && idObj->IsArray())
     {
         auto it = idObj->GetArray().begin();
         PdfString str;
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index a569d9f..f5649fa 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -207,6 +207,7 @@ private:
     uint64_t m_MagicOffset;
     bool m_IncrementalUpdate;
     bool m_rewriteXRefTable; // Only used if incremental update
+    bool m_keepIdentifier;   // Keep the first part of the identifier of the original file
 };
 
 };
-- 
2.43.0


From c386066d47fce99b9aea37d53f79452488e0520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 42/66] fix: writing an object through its output stream marks
 the object as changed

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f23dc48..1d56285 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -34,18 +34,21 @@ PdfObjectStream::~PdfObjectStream() { }
 PdfObjectOutputStream PdfObjectStream::GetOutputStreamRaw(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(), append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, { DefaultFilter }, append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(const PdfFilterList& filters, bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(filters), append);
 }
 
-- 
2.43.0


From 6bfe086866486c257c42f5806a0e40582936c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:17 +0000
Subject: [PATCH 43/66] fix: PdfObject::Null is a null object

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 77bc0f1..b6ff12c 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -18,7 +18,7 @@
 using namespace std;
 using namespace mm;
 
-PdfObject PdfObject::Null;
+PdfObject PdfObject::Null = PdfObject(PdfVariant());
 
 PdfObject::PdfObject()
     : PdfObject(PdfDictionary(), PdfReference(), false) { }
-- 
2.43.0


From c9694e7fab6261a4559e17b2aafe6fcd15557ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:17 +0000
Subject: [PATCH 44/66] fix: outline items are linked with parent and siblings,
 loops and long chains are handled

---
 src/pdfmm/base/PdfOutlines.cpp | 151 +++++++++++++++++++++------------
 src/pdfmm/base/PdfOutlines.h   |  12 +++
 2 files changed, 108 insertions(+), 55 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 6df8ed7..bc2e4cc 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -45,23 +45,59 @@ PdfOutlineItem::PdfOutlineItem(PdfDocument& doc, const PdfString& title, const s
 PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, PdfOutlineItem* previous)
     : PdfDictionaryElement(obj), m_ParentOutline(parentOutline), m_Prev(previous),
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
+{
+}
+
+void PdfOutlineItem::load()
+{
+    // The items already found, to detect loops
+    unordered_set<const PdfObject*> visited = { &GetObject() };
+    loadChildren(visited);
+    if (m_ParentOutline == nullptr)
+        loadNext(visited);
+}
+
+void PdfOutlineItem::loadChildren(unordered_set<const PdfObject*>& visited)
 {
     utls::RecursionGuard guard;
-    PdfReference first, next;
+    auto item = loadItem("First", visited, this, nullptr);
+    if (item == nullptr)
+        return;
 
-    if (this->GetObject().GetDictionary().HasKey("First"))
-    {
-        first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
-        m_First = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(first), this, nullptr);
-    }
+    m_First = item;
+    item->loadChildren(visited);
+    m_Last = item->loadNext(visited);
+}
 
-    if (this->GetObject().GetDictionary().HasKey("Next"))
+PdfOutlineItem* PdfOutlineItem::loadNext(unordered_set<const PdfObject*>& visited)
+{
+    auto item = this;
+    while (true)
     {
-        next = this->GetObject().GetDictionary().GetKey("Next")->GetReference();
-        m_Next = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(next), parentOutline, this);
+        auto next = item->loadItem("Next", visited, m_ParentOutline, item);
+        if (next == nullptr)
+            return item;
+
+        item->m_Next = next;
+        next->loadChildren(visited);
+        item = next;
     }
 }
 
+PdfOutlineItem* PdfOutlineItem::loadItem(const string_view& key, unordered_set<const PdfObject*>& visited,
+    PdfOutlineItem* parentOutline, PdfOutlineItem* previous)
+{
+    auto obj = GetDictionary().GetKey(key);
+    if (obj == nullptr || obj->IsNull())
+        return nullptr;
+
+    auto& itemObj = GetDocument().GetObjects().MustGetObject(obj->GetReference());
+    if (!visited.insert(&itemObj).second)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in the outlines");
+
+    return new PdfOutlineItem(itemObj, parentOutline, previous);
+}
+
 PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
     : PdfDictionaryElement(doc, "Outlines"), m_ParentOutline(nullptr), m_Prev(nullptr),
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
@@ -70,7 +106,16 @@ PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
 
 PdfOutlineItem::~PdfOutlineItem()
 {
-    delete m_Next;
+    // Delete the siblings iteratively
+    auto next = m_Next;
+    while (next != nullptr)
+    {
+        auto item = next;
+        next = item->m_Next;
+        item->m_Next = nullptr;
+        delete item;
+    }
+
     delete m_First;
 }
 
@@ -88,39 +133,17 @@ void PdfOutlineItem::InsertChild(PdfOutlineItem* item)
 
 void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
 {
-    PdfOutlineItem* itemToCheckParent = item;
-    PdfOutlineItem* root = nullptr;
-    PdfOutlineItem* rootOfThis = nullptr;
-
-    if (itemToCheckParent == nullptr)
+    if (item == nullptr)
         return;
 
     if (checkParent)
     {
-        while (itemToCheckParent != nullptr)
-        {
-            while (itemToCheckParent->GetParentOutline())
-                itemToCheckParent = itemToCheckParent->GetParentOutline();
-
-            if (itemToCheckParent == item) // item can't have a parent
-            {
-                root = item; // needed later, "root" can mean "standalone" here
-                break;         // for performance in standalone or doc-merge case
-            }
-
-            if (root == nullptr)
-            {
-                rootOfThis = itemToCheckParent;
-                itemToCheckParent = nullptr;
-            }
-            else
-            {
-                root = itemToCheckParent;
-                itemToCheckParent = this;
-            }
-        }
-
-        if (root == rootOfThis) // later nullptr if check skipped for performance
+        // The item can't have a parent, or be a parent of this one
+        const PdfOutlineItem* root = this;
+        while (root->m_ParentOutline != nullptr)
+            root = root->m_ParentOutline;
+
+        if (item->m_ParentOutline != nullptr || item == root)
             PDFMM_RAISE_ERROR(PdfErrorCode::OutlineItemAlreadyPresent);
     }
 
@@ -129,14 +152,26 @@ void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
         m_Last->SetNext(item);
         item->SetPrevious(m_Last);
     }
-
-    m_Last = item;
+    else
+    {
+        item->SetPrevious(nullptr);
+    }
 
     if (m_First == nullptr)
-        m_First = m_Last;
+        SetFirst(item);
+
+    // The item may be followed by siblings
+    while (true)
+    {
+        item->m_ParentOutline = this;
+        item->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
+        if (item->m_Next == nullptr)
+            break;
 
-    this->GetObject().GetDictionary().AddKey("First", m_First->GetObject().GetIndirectReference());
-    this->GetObject().GetDictionary().AddKey("Last", m_Last->GetObject().GetIndirectReference());
+        item = item->m_Next;
+    }
+
+    SetLast(item);
 }
 
 PdfOutlineItem* PdfOutlineItem::CreateNext(const PdfString& title, const shared_ptr<PdfDestination>& dest)
@@ -333,26 +368,31 @@ void PdfOutlineItem::SetTextColor(double r, double g, double b)
 
 double PdfOutlineItem::GetTextColorRed() const
 {
-    if (this->GetObject().GetDictionary().HasKey("C"))
-        return this->GetObject().GetDictionary().MustFindKey("C").GetArray()[0].GetReal();
-
-    return 0.0;
+    return getTextColor(0);
 }
 
 double PdfOutlineItem::GetTextColorGreen() const
 {
-    if (this->GetObject().GetDictionary().HasKey("C"))
-        return this->GetObject().GetDictionary().MustFindKey("C").GetArray()[1].GetReal();
-
-    return 0.0;
+    return getTextColor(1);
 }
 
 double PdfOutlineItem::GetTextColorBlue() const
 {
-    if (this->GetObject().GetDictionary().HasKey("C"))
-        return this->GetObject().GetDictionary().MustFindKey("C").GetArray()[2].GetReal();
+    return getTextColor(2);
+}
+
+double PdfOutlineItem::getTextColor(unsigned index) const
+{
+    const PdfArray* arr;
+    double value;
+    auto color = this->GetObject().GetDictionary().FindKey("C");
+    if (color == nullptr || !color->TryGetArray(arr) || index >= arr->GetSize()
+        || !arr->MustFindAt(index).TryGetReal(value))
+    {
+        return 0.0;
+    }
 
-    return 0.0;
+    return value;
 }
 
 PdfOutlines::PdfOutlines(PdfDocument& doc)
@@ -363,6 +403,7 @@ PdfOutlines::PdfOutlines(PdfDocument& doc)
 PdfOutlines::PdfOutlines(PdfObject& obj)
     : PdfOutlineItem(obj, nullptr, nullptr)
 {
+    load();
 }
 
 PdfOutlineItem* PdfOutlines::CreateRoot(const PdfString& title)
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 1db0e43..2885e27 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -8,6 +8,8 @@
 
 #include "PdfDeclarations.h"
 
+#include <unordered_set>
+
 #include "PdfElement.h"
 
 namespace mm {
@@ -194,6 +196,16 @@ private:
     void SetFirst(PdfOutlineItem* item);
 
     void InsertChildInternal(PdfOutlineItem* item, bool checkParent);
+    double getTextColor(unsigned index) const;
+    void loadChildren(std::unordered_set<const PdfObject*>& visited);
+    PdfOutlineItem* loadNext(std::unordered_set<const PdfObject*>& visited);
+    PdfOutlineItem* loadItem(const std::string_view& key, std::unordered_set<const PdfObject*>& visited,
+        PdfOutlineItem* parentOutline, PdfOutlineItem* previous);
+
+protected:
+    /** Load the children, and the next siblings if there's no parent
+     */
+    void load();
 
 protected:
     /** Create a new PdfOutlineItem dictionary
-- 
2.43.0


From b0ad9f311151b51985ea5906104fb122bd41deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:17 +0000
Subject: [PATCH 45/66] fix: page tree, cache and inherited attributes stay
 consistent when pages are inserted, moved or removed

---
 src/pdfmm/base/PdfDictionary.cpp     |   1 +
 src/pdfmm/base/PdfPage.cpp           | 120 +++++++++++----------------
 src/pdfmm/base/PdfPage.h             |   5 ++
 src/pdfmm/base/PdfPageCollection.cpp |  74 +++++++++++++++--
 src/pdfmm/base/PdfPageCollection.h   |   4 +
 src/pdfmm/base/PdfPageTreeCache.cpp  |  24 ++++++
 src/pdfmm/base/PdfPageTreeCache.h    |  10 +++
 7 files changed, 159 insertions(+), 79 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 93cb354..23af968 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -159,6 +159,7 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
+    utls::RecursionGuard guard;
     PdfObject* obj = findKey(key);
     if (obj == nullptr)
     {
diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 04bc157..63188a6 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -196,7 +196,7 @@ int PdfPage::GetRotationRaw() const
     int rot = 0;
 
     auto obj = GetDictionary().FindKeyParent("Rotate");
-    if (obj != nullptr && (obj->IsNumber() || obj->GetReal()))
+    if (obj != nullptr && obj->IsNumberOrReal())
         rot = static_cast<int>(obj->GetNumber());
 
     return rot;
@@ -212,20 +212,7 @@ void PdfPage::SetRotationRaw(int rotation)
 
 void PdfPage::MoveAt(unsigned index)
 {
-    // TODO: CHECK-ME FOR CORRECT WORKING
-    auto& doc = GetDocument();
-    auto& pages = doc.GetPages();
-    unsigned fromIndex = m_Index;
-    pages.InsertDocumentPageAt(index, doc, m_Index);
-    if (index < fromIndex)
-    {
-        // If we inserted the page before the old 
-        // position we have to increment the from position
-        fromIndex++;
-    }
-
-    pages.RemovePageAt(fromIndex);
-    m_Index = fromIndex;
+    GetDocument().GetPages().movePage(m_Index, index);
 }
 
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
@@ -242,73 +229,56 @@ PdfField& PdfPage::createField(const string_view& name, const type_info& typeInf
 
 bool PdfPage::SetPageWidth(int newWidth)
 {
-    // Take advantage of inherited values - walking up the tree if necessary
-    auto mediaBoxObj = GetDictionary().FindKeyParent("MediaBox");
-
-    // assign the value of the box from the array
-    if (mediaBoxObj != nullptr && mediaBoxObj->IsArray())
-    {
-        auto& mediaBoxArr = mediaBoxObj->GetArray();
-
-        // in PdfRect::FromArray(), the Left value is subtracted from Width
-        double dLeftMediaBox = mediaBoxArr[0].GetReal();
-        mediaBoxArr[2] = PdfObject(newWidth + dLeftMediaBox);
+    PdfRect rect;
+    if (!tryGetPageBox("MediaBox", rect))
+        return false;
 
-        // Take advantage of inherited values - walking up the tree if necessary
-        auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
+    rect.SetWidth(newWidth);
+    setPageBox("MediaBox", rect);
 
-        if (cropBoxObj != nullptr && cropBoxObj->IsArray())
-        {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Left value is subtracted from Width
-            double dLeftCropBox = cropBoxArr[0].GetReal();
-            cropBoxArr[2] = PdfObject(newWidth + dLeftCropBox);
-            return true;
-        }
-        else
-        {
-            return false;
-        }
-    }
-    else
-    {
+    if (!tryGetPageBox("CropBox", rect))
         return false;
-    }
+
+    rect.SetWidth(newWidth);
+    setPageBox("CropBox", rect);
+    return true;
 }
 
 bool PdfPage::SetPageHeight(int newHeight)
 {
-    // Take advantage of inherited values - walking up the tree if necessary
-    auto obj = GetDictionary().FindKeyParent("MediaBox");
+    PdfRect rect;
+    if (!tryGetPageBox("MediaBox", rect))
+        return false;
 
-    // assign the value of the box from the array
-    if (obj != nullptr && obj->IsArray())
-    {
-        auto& mediaBoxArr = obj->GetArray();
-        // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-        double bottom = mediaBoxArr[1].GetReal();
-        mediaBoxArr[3] = PdfObject(newHeight + bottom);
+    rect.SetHeight(newHeight);
+    setPageBox("MediaBox", rect);
 
-        // Take advantage of inherited values - walking up the tree if necessary
-        auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
+    if (!tryGetPageBox("CropBox", rect))
+        return false;
 
-        if (cropBoxObj != nullptr && cropBoxObj->IsArray())
-        {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-            double dBottomCropBox = cropBoxArr[1].GetReal();
-            cropBoxArr[3] = PdfObject(newHeight + dBottomCropBox);
-            return true;
-        }
-        else
-        {
-            return false;
-        }
-    }
-    else
-    {
+    rect.SetHeight(newHeight);
+    setPageBox("CropBox", rect);
+    return true;
+}
+
+bool PdfPage::tryGetPageBox(const string_view& name, PdfRect& rect) const
+{
+    // Take advantage of inherited values - walking up the tree if necessary
+    auto obj = GetDictionary().FindKeyParent(name);
+    if (obj == nullptr || !obj->IsArray())
         return false;
-    }
+
+    rect.FromArray(obj->GetArray());
+    return true;
+}
+
+void PdfPage::setPageBox(const string_view& name, const PdfRect& rect)
+{
+    // NOTE: The box is always set on the page itself: an inherited
+    // box must not be modified since it's shared with other pages
+    PdfArray arr;
+    rect.ToArray(arr);
+    GetDictionary().AddKey(name, arr);
 }
 
 void PdfPage::SetMediaBox(const PdfRect& size)
@@ -516,8 +486,12 @@ PdfResources* getResources(PdfObject& obj, const deque<PdfObject*>& listOfParent
     if (resources == nullptr)
     {
         // Resources might be inherited
-        for (auto& parent : listOfParents)
-            resources = parent->GetDictionary().FindKey("Resources");
+        for (auto it = listOfParents.rbegin(); it != listOfParents.rend(); it++)
+        {
+            resources = (*it)->GetDictionary().FindKey("Resources");
+            if (resources != nullptr)
+                break;
+        }
     }
 
     if (resources == nullptr)
diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index e8950bd..702ca4c 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -47,6 +47,7 @@ class PDFMM_API PdfPage final : public PdfDictionaryElement, public PdfCanvas
 {
     PDFMM_UNIT_TEST(PdfPageTest);
     friend class PdfPageCollection;
+    friend class PdfPageTreeCache;
 
 private:
     /** Create a new PdfPage object.
@@ -158,6 +159,8 @@ public:
     void SetRotationRaw(int rotation);
 
     /** Move the page at the given index
+     *  \param index index of the page after it has been moved, the
+     *     page becomes the last one if there are fewer pages
      */
     void MoveAt(unsigned index);
 
@@ -220,6 +223,8 @@ private:
      *  \returns PdfRect the page box
      */
     PdfRect getPageBox(const std::string_view& inBox) const;
+    bool tryGetPageBox(const std::string_view& name, PdfRect& rect) const;
+    void setPageBox(const std::string_view& name, const PdfRect& rect);
 
 private:
     PdfElement& GetElement() = delete;
diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 8ac90ad..52b7bce 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -109,6 +109,13 @@ void PdfPageCollection::InsertPageAt(unsigned atIndex, PdfObject& pageObj)
 }
 
 void PdfPageCollection::InsertPagesAt(unsigned atIndex, const vector<PdfObject*>& pages)
+{
+    atIndex = std::min(atIndex, this->GetCount());
+    insertPageNodesAt(atIndex, pages);
+    m_cache.InsertPlaceHolders(atIndex, (unsigned)pages.size());
+}
+
+void PdfPageCollection::insertPageNodesAt(unsigned atIndex, const vector<PdfObject*>& pages)
 {
     bool insertAfterPivot = false;
     PdfObjectList parents;
@@ -135,10 +142,9 @@ void PdfPageCollection::InsertPagesAt(unsigned atIndex, const vector<PdfObject*>
     {
         if (this->GetCount() != 0)
         {
-            mm::LogMessage(PdfLogSeverity::Error,
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::PageNotFound,
                 "Cannot find page {} or page {} has no parents. Cannot insert new page",
                 atIndex, atIndex);
-            return;
         }
         else
         {
@@ -156,7 +162,26 @@ void PdfPageCollection::InsertPagesAt(unsigned atIndex, const vector<PdfObject*>
         insertPagesIntoNode(*parentNode, parents, insertAfterPivot ? posInKids : posInKids - 1, pages);
     }
 
-    m_cache.InsertPlaceHolders(atIndex, (unsigned)pages.size());
+    // The pages must not change because of attributes
+    // inherited from the new ancestors
+    for (auto page : pages)
+    {
+        auto& pageDict = page->GetDictionary();
+        auto inherits = [&pageDict](const string_view& name)
+        {
+            return !pageDict.HasKey(name) && const_cast<const PdfDictionary&>(pageDict).FindKeyParent(name) != nullptr;
+        };
+
+        if (inherits("Resources"))
+            pageDict.AddKey("Resources", PdfDictionary());
+
+        if (inherits("Rotate"))
+            pageDict.AddKey("Rotate", PdfVariant((int64_t)0));
+
+        // The default value for the crop box is the media box
+        if (inherits("CropBox") && pageDict.HasKey("MediaBox"))
+            pageDict.AddKey("CropBox", PdfObject(*pageDict.FindKey("MediaBox")));
+    }
 }
 
 PdfPage& PdfPageCollection::CreatePage(const PdfRect& size)
@@ -195,11 +220,45 @@ void PdfPageCollection::InsertDocumentPageAt(unsigned atIndex, const PdfDocument
     return GetDocument().InsertDocumentPageAt(atIndex, doc, pageIndex);
 }
 
-void PdfPageCollection::RemovePageAt(unsigned atIndex)
+void PdfPageCollection::movePage(unsigned fromIndex, unsigned toIndex)
 {
-    // Delete from cache
-    m_cache.DeletePage(atIndex);
+    // Make sure the page is cached
+    auto& page = GetPageAt(fromIndex);
+    toIndex = std::min(toIndex, this->GetCount() - 1);
+    if (fromIndex == toIndex)
+        return;
 
+    PdfObjectList parents;
+    auto pageNode = this->getPageNode(fromIndex, this->GetRoot(), parents);
+    if (pageNode == nullptr || parents.size() == 0)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    // The page may get other ancestors: set the inherited
+    // attributes to the page itself
+    auto& pageDict = pageNode->GetDictionary();
+    for (auto name : { "Resources", "MediaBox", "CropBox", "Rotate" })
+    {
+        if (pageDict.HasKey(name))
+            continue;
+
+        auto attribute = const_cast<const PdfDictionary&>(pageDict).FindKeyParent(name);
+        if (attribute != nullptr)
+            pageDict.AddKeyIndirectSafe(name, *attribute);
+    }
+
+    auto resources = pageDict.FindKey("Resources");
+    if (resources != nullptr)
+        page.m_Resources.reset(new PdfResources(*resources));
+
+    auto& parent = *parents.back();
+    unsigned kidsIndex = (unsigned)this->getPosInKids(*pageNode, &parent);
+    deletePageFromNode(parent, parents, kidsIndex, *pageNode);
+    insertPageNodesAt(toIndex, { pageNode });
+    m_cache.MovePage(fromIndex, toIndex);
+}
+
+void PdfPageCollection::RemovePageAt(unsigned atIndex)
+{
     // Delete from pages tree
     PdfObjectList parents;
     auto pageNode = this->getPageNode(atIndex, this->GetRoot(), parents);
@@ -225,6 +284,9 @@ void PdfPageCollection::RemovePageAt(unsigned atIndex)
         PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
     }
 
+    // Delete from cache
+    m_cache.DeletePage(atIndex);
+
     // After removing the page the /OpenAction entry may be invalidated,
     // prompting an error using Acrobat. Remove it for safer behavior
     GetDocument().GetCatalog().GetDictionary().RemoveKey("OpenAction");
diff --git a/src/pdfmm/base/PdfPageCollection.h b/src/pdfmm/base/PdfPageCollection.h
index 2d19fc5..34a5c9a 100644
--- a/src/pdfmm/base/PdfPageCollection.h
+++ b/src/pdfmm/base/PdfPageCollection.h
@@ -138,6 +138,10 @@ private:
     PdfPage& getPage(unsigned index);
     PdfPage& getPage(const PdfReference& ref);
 
+    void insertPageNodesAt(unsigned atIndex, const std::vector<PdfObject*>& pages);
+
+    void movePage(unsigned fromIndex, unsigned toIndex);
+
     PdfObject* getPageNode(unsigned index, PdfObject& parent, PdfObjectList& parents);
 
     unsigned getChildCount(const PdfObject& nodeObj) const;
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index 46f6bad..576e9bd 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -67,6 +67,8 @@ void PdfPageTreeCache::InsertPlaceHolders(unsigned atIndex, unsigned count)
 
     for (unsigned i = 0; i < count; i++)
         m_PageObjs.insert(m_PageObjs.begin() + atIndex + i, static_cast<PdfPage*>(nullptr));
+
+    updateIndices(atIndex + count);
 }
 
 void PdfPageTreeCache::DeletePage(unsigned atIndex)
@@ -76,6 +78,19 @@ void PdfPageTreeCache::DeletePage(unsigned atIndex)
 
     delete m_PageObjs[atIndex];
     m_PageObjs.erase(m_PageObjs.begin() + atIndex);
+    updateIndices(atIndex);
+}
+
+void PdfPageTreeCache::MovePage(unsigned fromIndex, unsigned toIndex)
+{
+    size_t size = std::max(fromIndex, toIndex) + (size_t)1;
+    if (m_PageObjs.size() < size)
+        m_PageObjs.resize(size);
+
+    auto page = m_PageObjs[fromIndex];
+    m_PageObjs.erase(m_PageObjs.begin() + fromIndex);
+    m_PageObjs.insert(m_PageObjs.begin() + toIndex, page);
+    updateIndices(std::min(fromIndex, toIndex));
 }
 
 void PdfPageTreeCache::ClearCache()
@@ -85,3 +100,12 @@ void PdfPageTreeCache::ClearCache()
 
     m_PageObjs.clear();
 }
+
+void PdfPageTreeCache::updateIndices(unsigned fromIndex)
+{
+    for (unsigned i = fromIndex; i < m_PageObjs.size(); i++)
+    {
+        if (m_PageObjs[i] != nullptr)
+            m_PageObjs[i]->m_Index = i;
+    }
+}
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index cd01bf1..3159490 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -67,12 +67,22 @@ public:
      */
     void DeletePage(unsigned atIndex);
 
+    /**
+     * Move a page of the cache, shifting the pages in between
+     * \param fromIndex index of the page
+     * \param toIndex index of the page after it has been moved
+     */
+    void MovePage(unsigned fromIndex, unsigned toIndex);
+
     /**
      * Clear cache, i.e. remove all elements from the
      * cache.
      */
     void ClearCache();
 
+private:
+    void updateIndices(unsigned fromIndex);
+
 private:
     List m_PageObjs;
 };
-- 
2.43.0


From 4277995312a698539cea24464f20448f926127a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:17 +0000
Subject: [PATCH 46/66] fix: content streams in an array are separated when
 concatenated

---
 src/pdfmm/base/PdfContents.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e8565a0..977f48d 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -132,12 +132,21 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
 
 void PdfContents::copyTo(OutputStream& stream, const PdfArray& arr) const
 {
+    bool first = true;
     for (unsigned i = 0; i < arr.GetSize(); i++)
     {
         const PdfObjectStream* objStream;
         auto streamObj = arr.FindAt(i);
         if (streamObj != nullptr && (objStream = streamObj->GetStream()) != nullptr)
+        {
+            // The division between streams is a token boundary
+            if (first)
+                first = false;
+            else
+                stream.Write('\n');
+
             objStream->CopyTo(stream);
+        }
     }
 }
 
-- 
2.43.0


From 0587904ba31abfa846b556326d6901af2b6fbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:17 +0000
Subject: [PATCH 47/66] fix: importing pages copies the objects of the source
 document without corrupting references

---
 src/pdfmm/base/PdfDocument.cpp    | 368 ++++++++----------------------
 src/pdfmm/base/PdfDocument.h      |  10 +-
 src/pdfmm/base/PdfXObjectForm.cpp |   9 +-
 3 files changed, 107 insertions(+), 280 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..7347d4e 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -18,6 +18,7 @@
 #include "PdfIndirectObjectList.h"
 #include "PdfAcroForm.h"
 #include "PdfDestination.h"
+#include "PdfParser.h"
 #include "PdfFileSpec.h"
 #include "PdfFontMetrics.h"
 #include "PdfInfo.h"
@@ -109,26 +110,25 @@ void PdfDocument::Init()
         m_AcroForm.reset(new PdfAcroForm(*acroformObj));
 }
 
-void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
-{
-    append(doc, true);
-}
-
-void PdfDocument::append(const PdfDocument& doc, bool appendAll)
+unsigned PdfDocument::importObjects(const PdfDocument& doc)
 {
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    // All the numbers in use by this document, also for free
+    // or missing objects, are lower than the object count
+    auto& sourceObjects = doc.GetObjects();
+    unsigned difference = m_Objects.GetObjectCount();
+    if ((uint64_t)difference + sourceObjects.GetObjectCount() > PdfParser::GetMaxObjectCount())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Too many objects to import");
 
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
+    // NOTE: The source may be this same document
+    vector<const PdfObject*> sources(sourceObjects.begin(), sourceObjects.end());
+    const auto freeObjects = sourceObjects.GetFreeObjects();
 
     // create all free objects again, to have a clean free object list
-    for (auto& ref : doc.GetObjects().GetFreeObjects())
+    for (auto& ref : freeObjects)
         m_Objects.AddFreeObject(PdfReference(ref.ObjectNumber() + difference, ref.GenerationNumber()));
 
     // append all objects first and fix their references
-    for (auto& obj : doc.GetObjects())
+    for (auto obj : sources)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
@@ -139,197 +139,97 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 
         mm::LogMessage(PdfLogSeverity::Information, "Fixing references in {} {} R by {}",
             newObj->GetIndirectReference().ObjectNumber(), newObj->GetIndirectReference().GenerationNumber(), difference);
-        fixObjectReferences(*newObj, difference);
-    }
-
-    if (appendAll)
-    {
-        const PdfName inheritableAttributes[] = {
-            PdfName("Resources"),
-            PdfName("MediaBox"),
-            PdfName("CropBox"),
-            PdfName("Rotate"),
-            PdfName::KeyNull
-        };
-
-        // append all pages now to our page tree
-        for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
-        {
-            auto& page = doc.GetPages().GetPageAt(i);
-            auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
-                + difference, page.GetObject().GetIndirectReference().GenerationNumber()));
-            if (obj.IsDictionary() && obj.GetDictionary().HasKey("Parent"))
-                obj.GetDictionary().RemoveKey("Parent");
-
-            // Deal with inherited attributes
-            auto inherited = inheritableAttributes;
-            while (!inherited->IsNull())
-            {
-                auto attribute = page.GetDictionary().FindKeyParent(*inherited);
-                if (attribute != nullptr)
-                {
-                    PdfObject attributeCopy(*attribute);
-                    fixObjectReferences(attributeCopy, difference);
-                    obj.GetDictionary().AddKey(*inherited, attributeCopy);
-                }
-
-                inherited++;
-            }
-
-            m_Pages->InsertPageAt(m_Pages->GetCount(), obj);
-        }
-
-        // append all outlines
-        PdfOutlineItem* root = this->GetOutlines();
-        PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
-        if (appendRoot && appendRoot->First())
-        {
-            // only append outlines if appended document has outlines
-            while (root && root->Next())
-                root = root->Next();
-
-            PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
-                + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-            root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
-        }
+        fixObjectReferences(*newObj, difference, sourceObjects);
     }
 
-    // TODO: merge name trees
-    // ToDictionary -> then iteratate over all keys and add them to the new one
+    return difference;
 }
 
-void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
+PdfObject& PdfDocument::getImportedPage(const PdfDocument& doc, unsigned pageIndex, unsigned difference)
 {
-    // copy of PdfDocument::Append, only restricts which page to add
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    auto& page = doc.GetPages().GetPageAt(pageIndex);
+    auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
+        + difference, page.GetObject().GetIndirectReference().GenerationNumber()));
+    obj.GetDictionary().RemoveKey("Parent");
 
+    // Deal with inherited attributes
+    for (auto name : { "Resources", "MediaBox", "CropBox", "Rotate" })
+        importInherited(page, name, obj.GetDictionary(), difference);
 
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
+    return obj;
+}
 
-    // create all free objects again, to have a clean free object list
-    for (auto& freeObj : GetObjects().GetFreeObjects())
+void PdfDocument::importInherited(const PdfPage& page, const string_view& name, PdfDictionary& dict, unsigned difference)
+{
+    if (dict.HasKey(name))
+        return;
+
+    auto attribute = page.GetDictionary().FindKeyParent(name);
+    if (attribute == nullptr)
+        return;
+
+    if (attribute->IsIndirect())
     {
-        m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
+        dict.AddKey(name, PdfReference(attribute->GetIndirectReference().ObjectNumber() + difference,
+            attribute->GetIndirectReference().GenerationNumber()));
+        return;
     }
 
-    // append all objects first and fix their references
-    for (auto& obj : GetObjects())
-    {
-        PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
-        auto newObj = new PdfObject(PdfDictionary());
-        newObj->setDirty();
-        newObj->SetIndirectReference(ref);
-        m_Objects.PushObject(newObj);
-        *newObj = *obj;
+    PdfObject attributeCopy(*attribute);
+    if (difference != 0)
+        fixObjectReferences(attributeCopy, difference, page.GetDocument().GetObjects());
 
-        mm::LogMessage(PdfLogSeverity::Information, "Fixing references in {} {} R by {}",
-            newObj->GetIndirectReference().ObjectNumber(), newObj->GetIndirectReference().GenerationNumber(), difference);
-        fixObjectReferences(*newObj, difference);
-    }
+    dict.AddKey(name, attributeCopy);
+}
 
-    const PdfName inheritableAttributes[] = {
-        PdfName("Resources"),
-        PdfName("MediaBox"),
-        PdfName("CropBox"),
-        PdfName("Rotate"),
-        PdfName::KeyNull
-    };
+void PdfDocument::importPages(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex, unsigned pageCount)
+{
+    unsigned sourceCount = doc.GetPages().GetCount();
+    if (pageIndex > sourceCount || pageCount > sourceCount - pageIndex)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
 
-    // append all pages now to our page tree
-    for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
-    {
-        if (i != pageIndex)
-            continue;
-
-        auto& page = doc.GetPages().GetPageAt(i);
-        auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
-            + difference, page.GetObject().GetIndirectReference().GenerationNumber()));
-        if (obj.IsDictionary() && obj.GetDictionary().HasKey("Parent"))
-            obj.GetDictionary().RemoveKey("Parent");
-
-        // Deal with inherited attributes
-        const PdfName* inherited = inheritableAttributes;
-        while (!inherited->IsNull())
-        {
-            auto attribute = page.GetDictionary().FindKeyParent(*inherited);
-            if (attribute != nullptr)
-            {
-                PdfObject attributeCopy(*attribute);
-                fixObjectReferences(attributeCopy, difference);
-                obj.GetDictionary().AddKey(*inherited, attributeCopy);
-            }
-
-            inherited++;
-        }
-
-        m_Pages->InsertPageAt(atIndex, obj);
-    }
+    // Check the pages before modifying this document
+    for (unsigned i = 0; i < pageCount; i++)
+        (void)doc.GetPages().GetPageAt(pageIndex + i);
+
+    // Rather than copying one page at a time, we copy the entire
+    // document: it's simpler and guarantees that shared objects
+    // aren't copied multiple times. Unused objects are removed
+    // when the document is saved
+    unsigned difference = importObjects(doc);
+    vector<PdfObject*> pages;
+    for (unsigned i = 0; i < pageCount; i++)
+        pages.push_back(&getImportedPage(doc, pageIndex + i, difference));
+
+    if (pages.size() != 0)
+        m_Pages->InsertPagesAt(atIndex, pages);
 
     // append all outlines
-    PdfOutlineItem* root = this->GetOutlines();
     PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
-    if (appendRoot != nullptr && appendRoot->First())
+    if (appendRoot != nullptr && appendRoot->First() != nullptr)
     {
-        // only append outlines if appended document has outlines
-        while (root != nullptr && root->Next())
-            root = root->Next();
-
-        PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
-            + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-        root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
+        auto first = appendRoot->First()->GetObject().GetIndirectReference();
+        PdfReference ref(first.ObjectNumber() + difference, first.GenerationNumber());
+        GetOrCreateOutlines().InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
     }
 
     // TODO: merge name trees
     // ToDictionary -> then iteratate over all keys and add them to the new one
 }
 
-void PdfDocument::AppendDocumentPages(const PdfDocument& doc, unsigned pageIndex, unsigned pageCount)
+void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
 {
-    /*
-      This function works a bit different than one might expect.
-      Rather than copying one page at a time - we copy the ENTIRE document
-      and then delete the pages we aren't interested in.
-
-      We do this because
-      1) SIGNIFICANTLY simplifies the process
-      2) Guarantees that shared objects aren't copied multiple times
-      3) offers MUCH faster performance for the common cases
-
-      HOWEVER: because pdfmm doesn't currently do any sort of "object garbage collection" during
-      a Write() - we will end up with larger documents, since the data from unused pages
-      will also be in there.
-    */
-
-    // calculate preliminary "left" and "right" page ranges to delete
-    // then offset them based on where the pages were inserted
-    // NOTE: some of this will change if/when we support insertion at locations
-    //       OTHER than the end of the document!
-    unsigned leftStartPage = 0;
-    unsigned leftCount = pageIndex;
-    unsigned rightStartPage = pageIndex + pageCount;
-    unsigned rightCount = doc.GetPages().GetCount() - rightStartPage;
-    unsigned pageOffset = this->GetPages().GetCount();
-
-    leftStartPage += pageOffset;
-    rightStartPage += pageOffset;
-
-    // append in the whole document
-    this->AppendDocumentPages(doc);
+    importPages(m_Pages->GetCount(), doc, 0, doc.GetPages().GetCount());
+}
 
-    // delete
-    if (rightCount > 0)
-        this->deletePages(rightStartPage, rightCount);
-    if (leftCount > 0)
-        this->deletePages(leftStartPage, leftCount);
+void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
+{
+    importPages(atIndex, doc, pageIndex, 1);
 }
 
-void PdfDocument::deletePages(unsigned atIndex, unsigned pageCount)
+void PdfDocument::AppendDocumentPages(const PdfDocument& doc, unsigned pageIndex, unsigned pageCount)
 {
-    for (unsigned i = 0; i < pageCount; i++)
-        this->GetPages().RemovePageAt(atIndex);
+    importPages(m_Pages->GetCount(), doc, pageIndex, pageCount);
 }
 
 PdfInfo& PdfDocument::GetOrCreateInfo()
@@ -349,15 +249,10 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
     unsigned difference = 0;
     auto& sourceDoc = page.GetDocument();
     if (this != &sourceDoc)
-    {
-        difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
-        append(sourceDoc, false);
-    }
+        difference = importObjects(sourceDoc);
 
     // TODO: remove unused objects: page, ...
 
-    auto& pageObj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
-        + difference, page.GetObject().GetIndirectReference().GenerationNumber()));
     PdfRect box = page.GetMediaBox();
 
     // intersect with crop-box
@@ -368,116 +263,41 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
         box.Intersect(page.GetTrimBox());
 
     // link resources from external doc to x-object
-    if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Resources"))
-        xobj.GetObject().GetDictionary().AddKey("Resources", *pageObj.GetDictionary().GetKey("Resources"));
+    auto& xobjDict = xobj.GetObject().GetDictionary();
+    xobjDict.RemoveKey("Resources");
+    importInherited(page, "Resources", xobjDict, difference);
 
     // copy top-level content from external doc to x-object
-    if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Contents"))
-    {
-        // get direct pointer to contents
-        auto& contents = pageObj.GetDictionary().MustFindKey("Contents");
-        if (contents.IsArray())
-        {
-            // copy array as one stream to xobject
-            PdfArray arr = contents.GetArray();
-
-            auto& xobjStream = xobj.GetObject().GetOrCreateStream();
-            auto output = xobjStream.GetOutputStream({ PdfFilterType::FlateDecode });
-
-            for (auto& child : arr)
-            {
-                if (child.IsReference())
-                {
-                    // TODO: not very efficient !!
-                    auto obj = GetObjects().GetObject(child.GetReference());
-
-                    while (obj != nullptr)
-                    {
-                        if (obj->IsReference())    // Recursively look for the stream
-                        {
-                            obj = GetObjects().GetObject(obj->GetReference());
-                        }
-                        else if (obj->HasStream())
-                        {
-                            PdfObjectStream& contStream = obj->GetOrCreateStream();
-
-                            charbuff contStreamBuffer;
-                            contStream.CopyTo(contStreamBuffer);
-                            output.Write(contStreamBuffer);
-                            break;
-                        }
-                        else
-                        {
-                            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStream);
-                            break;
-                        }
-                    }
-                }
-                else
-                {
-                    string str;
-                    child.ToString(str);
-                    output.Write(str);
-                    output.Write(" ");
-                }
-            }
-        }
-        else if (contents.HasStream())
-        {
-            // copy stream to xobject
-            auto& contentsStream = contents.GetOrCreateStream();
-            auto contentsInput = contentsStream.GetInputStream();
-
-            auto& xobjStream = xobj.GetObject().GetOrCreateStream();
-            auto output = xobjStream.GetOutputStream({ PdfFilterType::FlateDecode });
-            contentsInput.CopyTo(output);
-        }
-        else
-        {
-            PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
-        }
-    }
+    auto& xobjStream = xobj.GetObject().GetOrCreateStream();
+    auto output = xobjStream.GetOutputStream({ PdfFilterType::FlateDecode });
+    auto contents = page.GetContents();
+    if (contents != nullptr)
+        contents->CopyTo(output);
 
     return box;
 }
 
-void PdfDocument::fixObjectReferences(PdfObject& obj, int difference)
+void PdfDocument::fixObjectReferences(PdfObject& obj, unsigned difference, const PdfIndirectObjectList& sources)
 {
     if (obj.IsDictionary())
     {
         for (auto& pair : obj.GetDictionary())
-        {
-            if (pair.second.IsReference())
-            {
-                pair.second = PdfObject(PdfReference(pair.second.GetReference().ObjectNumber() + difference,
-                    pair.second.GetReference().GenerationNumber()));
-            }
-            else if (pair.second.IsDictionary() ||
-                pair.second.IsArray())
-            {
-                fixObjectReferences(pair.second, difference);
-            }
-        }
+            fixObjectReferences(pair.second, difference, sources);
     }
     else if (obj.IsArray())
     {
         for (auto& child : obj.GetArray())
-        {
-            if (child.IsReference())
-            {
-                child = PdfObject(PdfReference(child.GetReference().ObjectNumber() + difference,
-                    child.GetReference().GenerationNumber()));
-            }
-            else if (child.IsDictionary() || child.IsArray())
-            {
-                fixObjectReferences(child, difference);
-            }
-        }
+            fixObjectReferences(child, difference, sources);
     }
     else if (obj.IsReference())
     {
-        obj = PdfObject(PdfReference(obj.GetReference().ObjectNumber() + difference,
-            obj.GetReference().GenerationNumber()));
+        // References to missing objects are equivalent to null. They must
+        // not refer to an object that will be created later
+        auto ref = obj.GetReference();
+        if (sources.GetObject(ref) == nullptr)
+            obj = PdfObject::Null;
+        else
+            obj = PdfObject(PdfReference(ref.ObjectNumber() + difference, ref.GenerationNumber()));
     }
 }
 
diff --git a/src/pdfmm/base/PdfDocument.h b/src/pdfmm/base/PdfDocument.h
index 32193d6..a1c78c2 100644
--- a/src/pdfmm/base/PdfDocument.h
+++ b/src/pdfmm/base/PdfDocument.h
@@ -306,17 +306,19 @@ private:
     PdfRect FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& page, bool useTrimBox);
 
 private:
-    void append(const PdfDocument& doc, bool appendAll);
+    unsigned importObjects(const PdfDocument& doc);
+    PdfObject& getImportedPage(const PdfDocument& doc, unsigned pageIndex, unsigned difference);
+    void importInherited(const PdfPage& page, const std::string_view& name, PdfDictionary& dict, unsigned difference);
+    void importPages(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex, unsigned pageCount);
     /** Recursively changes every PdfReference in the PdfObject and in any child
      *  that is either an PdfArray or a direct object.
      *  The reference is changed so that difference is added to the object number
      *  of the reference.
      *  \param obj object to change
      *  \param difference add this value to every reference that is encountered
+     *  \param sources the objects the references refer to
      */
-    void fixObjectReferences(PdfObject& obj, int difference);
-
-    void deletePages(unsigned atIndex, unsigned pageCount);
+    void fixObjectReferences(PdfObject& obj, unsigned difference, const PdfIndirectObjectList& sources);
 
 private:
     PdfDocument& operator=(const PdfDocument&) = delete;
diff --git a/src/pdfmm/base/PdfXObjectForm.cpp b/src/pdfmm/base/PdfXObjectForm.cpp
index b198059..d6914a7 100644
--- a/src/pdfmm/base/PdfXObjectForm.cpp
+++ b/src/pdfmm/base/PdfXObjectForm.cpp
@@ -34,6 +34,11 @@ void PdfXObjectForm::FillFromPage(const PdfPage& page, bool useTrimBox)
 {
     // After filling set correct BBox, independent of rotation
     m_Rect = GetDocument().FillXObjectFromPage(*this, page, useTrimBox);
+    m_Resources.reset();
+    auto resources = GetDictionary().FindKey("Resources");
+    if (resources != nullptr)
+        m_Resources.reset(new PdfResources(*resources));
+
     initAfterPageInsertion(page);
 }
 
@@ -119,8 +124,8 @@ void PdfXObjectForm::initAfterPageInsertion(const PdfPage& page)
     m_Rect.ToArray(bbox);
     this->GetObject().GetDictionary().AddKey("BBox", bbox);
 
-    int rotation = page.GetRotationRaw();
-    // correct negative rotation
+    // correct rotations out of range
+    int rotation = page.GetRotationRaw() % 360;
     if (rotation < 0)
         rotation = 360 + rotation;
 
-- 
2.43.0


From 0853c671d1f210d37938aec6d97ab8f054634be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 48/66] fix: stack overread while encoding file specifications

---
 src/pdfmm/base/PdfFileSpec.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfFileSpec.cpp b/src/pdfmm/base/PdfFileSpec.cpp
index 682df41..c0f1a74 100644
--- a/src/pdfmm/base/PdfFileSpec.cpp
+++ b/src/pdfmm/base/PdfFileSpec.cpp
@@ -73,7 +73,6 @@ PdfString PdfFileSpec::CreateFileSpecification(const string_view& filename) cons
     // FIX-ME: The following is not Unicode compliant
 
     outstringstream str;
-    char buff[5];
 
     // Construct a platform independent file specifier
 
@@ -97,8 +96,7 @@ PdfString PdfFileSpec::CreateFileSpecification(const string_view& filename) cons
         }
         else
         {
-            utls::FormatTo(buff, 5, "{:02X}", ch & 0xFF);
-            str << buff;
+            str << utls::Format("{:02X}", ch & 0xFF);
         }
     }
 
-- 
2.43.0


From 52c05d4e9a7a964e9afb6b7b41376abf75d296cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 49/66] fix: name trees order and compare keys by their bytes
 and tolerate unusual nodes

---
 src/pdfmm/base/PdfNameTree.cpp | 166 +++++++++++++++++++++++----------
 src/pdfmm/base/PdfNameTree.h   |   4 +-
 2 files changed, 119 insertions(+), 51 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ae19b9e..2bff28c 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
+#include <pdfmm/private/PdfEncodingPrivate.h>
 #include "PdfNameTree.h"
 
 #include "PdfDocument.h"
@@ -11,6 +12,9 @@
 #include "PdfDictionary.h"
 #include "PdfOutputDevice.h"
 
+#include <utfcpp/utf8.h>
+
+using namespace std;
 using namespace mm;
 
 #define BALANCE_TREE_MAX 65
@@ -19,6 +23,11 @@ using namespace mm;
 #define BALANCE_TREE_MAX 9
 */
 
+// The keys are ordered by the bytes of the strings as they are stored
+static string getKeyBytes(const PdfString& key);
+static string getUnicodeBytes(const PdfString& key);
+static const PdfString* getKey(const PdfArray& names, unsigned index);
+
 class PdfNameTreeNode
 {
 public:
@@ -46,6 +55,7 @@ private:
 
 bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
 {
+    utls::RecursionGuard guard;
     if (m_HasKids)
     {
         const PdfArray& kids = this->GetObject()->GetDictionary().MustFindKey("Kids").GetArray();
@@ -102,35 +112,41 @@ bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
         if (this->GetObject()->GetDictionary().HasKey("Names"))
         {
             auto& array = this->GetObject()->GetDictionary().MustFindKey("Names").GetArray();
-            PdfArray::iterator it = array.begin();
-            while (it != array.end())
+            // The last element is ignored if it's a key without value
+            if (array.GetSize() % 2 != 0)
+                array.RemoveAt(array.GetSize() - 1);
+
+            string keyBytes = getKeyBytes(key);
+            unsigned i = 0;
+            for (; i < array.GetSize(); i += 2)
             {
-                if (it->GetString() == key)
+                auto currentKey = getKey(array, i);
+                if (currentKey == nullptr)
+                    continue;
+
+                int compare = getKeyBytes(*currentKey).compare(keyBytes);
+                if (compare == 0)
                 {
                     // no need to write the key as it is anyways the same
-                    it++;
-                    // write the value
-                    *it = value;
+                    array[i + 1] = value;
                     break;
                 }
-                else if (it->GetString().GetString() > key.GetString())
+                else if (compare > 0)
                 {
-                    it = array.insert(it, value); // array.insert invalidates the iterator
-                    it = array.insert(it, key);
+                    array.insert(array.begin() + i, value);
+                    array.insert(array.begin() + i, key);
                     break;
                 }
-
-                it += 2;
             }
 
-            if (it == array.end())
+            if (i == array.GetSize())
             {
                 array.Add(key);
                 array.Add(value);
             }
 
-            limits.Add(*array.begin());
-            limits.Add(*(array.end() - 2));
+            limits.Add(array[0]);
+            limits.Add(array[array.GetSize() - 2]);
             rebalance = true;
         }
         else
@@ -210,8 +226,11 @@ void PdfNameTreeNode::SetLimits()
         if (namesObj != nullptr && namesObj->IsArray())
         {
             auto& namesArr = namesObj->GetArray();
-            limits.Add(*namesArr.begin());
-            limits.Add(*(namesArr.end() - 2));
+            if (namesArr.GetSize() > 1)
+            {
+                limits.Add(namesArr[0]);
+                limits.Add(namesArr[namesArr.GetSize() / 2 * 2 - 2]);
+            }
         }
         else
             mm::LogMessage(PdfLogSeverity::Error,
@@ -319,8 +338,13 @@ PdfNameTree::PdfNameTree(PdfObject& obj)
 
 void PdfNameTree::AddValue(const PdfName& tree, const PdfString& key, const PdfObject& value)
 {
-    PdfNameTreeNode root(nullptr, this->GetRootNode(tree, true));
-    if (!root.AddValue(key, value))
+    auto rootNode = this->GetRootNode(tree, true);
+    PdfNameTreeNode root(nullptr, rootNode);
+    // The key may be already present with the other representation
+    auto unicodeBytes = getUnicodeBytes(key);
+    bool unicode = this->GetKeyValue(*rootNode, getKeyBytes(key)) == nullptr
+        && this->GetKeyValue(*rootNode, unicodeBytes) != nullptr;
+    if (!root.AddValue(unicode ? PdfString::FromRaw(unicodeBytes, false) : key, value))
         PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
 }
 
@@ -331,7 +355,10 @@ PdfObject* PdfNameTree::GetValue(const PdfName& tree, const PdfString& key) cons
 
     if (obj != nullptr)
     {
-        result = this->GetKeyValue(*obj, key);
+        result = this->GetKeyValue(*obj, getKeyBytes(key));
+        if (result == nullptr)
+            result = this->GetKeyValue(*obj, getUnicodeBytes(key));
+
         if (result != nullptr && result->IsReference())
             result = this->GetObject().GetDocument()->GetObjects().GetObject(result->GetReference());
     }
@@ -339,9 +366,10 @@ PdfObject* PdfNameTree::GetValue(const PdfName& tree, const PdfString& key) cons
     return result;
 }
 
-PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
+PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const string& key) const
 {
-    if (PdfNameTree::CheckLimits(obj, key) != PdfNameLimits::Inside)
+    utls::RecursionGuard guard;
+    if (checkLimits(obj, key) != PdfNameLimits::Inside)
         return nullptr;
 
     if (obj.GetDictionary().HasKey("Kids"))
@@ -368,27 +396,17 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
             }
         }
     }
-    else
+    else if (obj.GetDictionary().HasKey("Names"))
     {
-        auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
-        PdfArray::iterator it = names.begin();
-
         // a names array is a set of PdfString/PdfObject pairs
         // so we loop in sets of two - getting each pair
-        while (it != names.end())
+        auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
+        for (unsigned i = 0; i + 1 < names.GetSize(); i += 2)
         {
-            if (it->GetString() == key)
-            {
-                it++;
-                if (it->IsReference())
-                    return this->GetObject().GetDocument()->GetObjects().GetObject((*it).GetReference());
-
-                return &(*it);
-            }
-
-            it += 2;
+            auto currentKey = getKey(names, i);
+            if (currentKey != nullptr && getKeyBytes(*currentKey) == key)
+                return names.FindAt(i + 1);
         }
-
     }
 
     return nullptr;
@@ -414,14 +432,22 @@ bool PdfNameTree::HasValue(const PdfName& tree, const PdfString& key) const
 
 PdfNameLimits PdfNameTree::CheckLimits(const PdfObject& obj, const PdfString& key)
 {
-    if (obj.GetDictionary().HasKey("Limits"))
-    {
-        auto& limits = obj.GetDictionary().MustFindKey("Limits").GetArray();
+    return checkLimits(obj, getKeyBytes(key));
+}
 
-        if (limits[0].GetString().GetString() > key.GetString())
+PdfNameLimits PdfNameTree::checkLimits(const PdfObject& obj, const string& key)
+{
+    auto limitsObj = obj.GetDictionary().FindKey("Limits");
+    const PdfArray* limits;
+    const PdfString* lower;
+    const PdfString* upper;
+    if (limitsObj != nullptr && limitsObj->TryGetArray(limits) && limits->GetSize() >= 2
+        && (lower = getKey(*limits, 0)) != nullptr && (upper = getKey(*limits, 1)) != nullptr)
+    {
+        if (getKeyBytes(*lower) > key)
             return PdfNameLimits::Before;
 
-        if (limits[1].GetString().GetString() < key.GetString())
+        if (getKeyBytes(*upper) < key)
             return PdfNameLimits::After;
     }
     else
@@ -466,16 +492,12 @@ void PdfNameTree::AddToDictionary(PdfObject& obj, PdfDictionary& dict)
     else if (obj.GetDictionary().HasKey("Names"))
     {
         auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
-        auto it = names.begin();
 
         // a names array is a set of PdfString/PdfObject pairs
         // so we loop in sets of two - getting each pair
-        while (it != names.end())
+        for (unsigned i = 0; i < names.GetSize(); i += 2)
         {
-            // convert all strings into names 
-            PdfName name(it->GetString().GetString());
-            it++;
-            if (it == names.end())
+            if (i + 1 == names.GetSize())
             {
                 mm::LogMessage(PdfLogSeverity::Warning,
                     "No reference in /Names array last element in "
@@ -484,8 +506,13 @@ void PdfNameTree::AddToDictionary(PdfObject& obj, PdfDictionary& dict)
                     obj.GetIndirectReference().GenerationNumber());
                 break;
             }
-            dict.AddKey(name, *it);
-            it++;
+
+            auto key = getKey(names, i);
+            if (key == nullptr)
+                PDFMM_RAISE_ERROR(PdfErrorCode::InvalidDataType);
+
+            // convert all strings into names
+            dict.AddKey(PdfName(key->GetString()), names[i + 1]);
         }
     }
 }
@@ -499,3 +526,42 @@ PdfObject* PdfNameTree::GetDestsNode(bool create) const
 {
     return this->GetRootNode("Dests", create);
 }
+
+string getKeyBytes(const PdfString& key)
+{
+    switch (key.GetState())
+    {
+        case PdfStringState::RawBuffer:
+            return key.GetRawData();
+        case PdfStringState::PdfDocEncoding:
+            return (string)mm::ConvertUTF8ToPdfDocEncoding(key.GetString());
+        case PdfStringState::Unicode:
+            return getUnicodeBytes(key);
+        default:
+            return key.GetString();
+    }
+}
+
+string getUnicodeBytes(const PdfString& key)
+{
+    u16string chars;
+    utf8::utf8to16(key.GetString().begin(), key.GetString().end(), std::back_inserter(chars));
+    string ret = "\xFE\xFF";
+    for (auto ch : chars)
+    {
+        ret.push_back((char)(ch >> 8));
+        ret.push_back((char)(ch & 0xFF));
+    }
+
+    return ret;
+}
+
+const PdfString* getKey(const PdfArray& names, unsigned index)
+{
+    const PdfString* ret;
+    auto obj = names.FindAt(index);
+    if (obj == nullptr || !obj->TryGetString(ret))
+        return nullptr;
+
+    return ret;
+}
diff --git a/src/pdfmm/base/PdfNameTree.h b/src/pdfmm/base/PdfNameTree.h
index 276d365..6a93f66 100644
--- a/src/pdfmm/base/PdfNameTree.h
+++ b/src/pdfmm/base/PdfNameTree.h
@@ -122,7 +122,9 @@ private:
      *  \param key the key to find a value for
      *  \return the value for the key or nullptr if it was not found
      */
-    PdfObject* GetKeyValue(PdfObject& obj, const PdfString& key) const;
+    PdfObject* GetKeyValue(PdfObject& obj, const std::string& key) const;
+
+    static PdfNameLimits checkLimits(const PdfObject& obj, const std::string& key);
 
     /**
      *  Add all keys and values from an object and its children to a dictionary.
-- 
2.43.0


From 3917c344ffef532624b7a2e92577f4c1501fd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 50/66] fix: order, prefixes and limits of character maps, CMap
 reading and writing, predefined encodings

---
 src/pdfmm/base/PdfCMapEncoding.cpp       |  62 +++++----
 src/pdfmm/base/PdfCharCodeMap.cpp        |   9 +-
 src/pdfmm/base/PdfDifferenceEncoding.cpp |  32 +++--
 src/pdfmm/base/PdfEncoding.cpp           |  64 ++-------
 src/pdfmm/base/PdfEncodingCommon.cpp     |   3 +
 src/pdfmm/base/PdfEncodingMap.cpp        | 170 +++++++++++++++--------
 src/pdfmm/base/PdfEncodingMap.h          |  15 ++
 src/pdfmm/base/PdfIdentityEncoding.cpp   |  49 +++++--
 src/pdfmm/base/PdfPredefinedEncoding.cpp |   9 +-
 9 files changed, 243 insertions(+), 170 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 11d39be..38672ee 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -27,7 +27,9 @@ struct CodeLimits
 
 static void readNextVariantSequence(PdfPostScriptTokenizer& tokenizer, InputStreamDevice& device,
     PdfVariant& variant, const string_view& endSequenceKeyword, bool& endOfSequence);
+static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSize);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits);
+static unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits, unsigned char& codeSize);
 static vector<char32_t> handleNameMapping(const PdfName& name);
 static vector<char32_t> handleStringMapping(const PdfString& str);
@@ -39,7 +41,7 @@ static void pushMapping(PdfCharCodeMap& map, const PdfCharCode& codeUnit, const
 static PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits);
 
 PdfCMapEncoding::PdfCMapEncoding(PdfCharCodeMap&& map)
-    : PdfCMapEncoding(std::move(map), map.GetLimits()) { }
+    : PdfEncodingMapBase(std::move(map), PdfEncodingMapType::CMap), m_Limits(GetCharMap().GetLimits()) { }
 
 PdfCMapEncoding::PdfCMapEncoding(PdfCharCodeMap&& map, const PdfEncodingLimits& limits)
     : PdfEncodingMapBase(std::move(map), PdfEncodingMapType::CMap), m_Limits(limits) { }
@@ -149,7 +151,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         uint32_t srcCodeLo = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsArray())
                         {
@@ -196,7 +198,8 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsNumber())
                         {
-                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                            unsigned char dstSize;
+                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, dstSize);
                             mappedCodes.clear();
                             mappedCodes.push_back(dstCode);
                         }
@@ -229,9 +232,10 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, limits);
+                        unsigned char dstSize;
+                        char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, dstSize);
 
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         vector<char32_t> mappedCodes;
                         for (unsigned i = 0; i < rangeSize; i++)
                         {
@@ -244,18 +248,18 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                 }
                 else if (token == "begincidchar")
                 {
-                    if (tokens.size() != 1)
-                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap missing object number before begincidchar");
-
-                    int charCount = (int)tokens.front()->GetNumber();
                     vector<char32_t> mappedCodes;
-                    for (int i = 0; i < charCount; i++)
+                    while (true)
                     {
-                        tokenizer.TryReadNext(device, tokenType, token, *var);
+                        readNextVariantSequence(tokenizer, device, *var, "endcidchar", endOfSequence);
+                        if (endOfSequence)
+                            break;
+
                         unsigned char codeSize;
                         uint32_t srcCode = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                        unsigned char dstSize;
+                        char32_t dstCode = (char32_t)getCodeFromVariant(*var, dstSize);
                         mappedCodes.clear();
                         mappedCodes.push_back(dstCode);
                         pushMapping(ret, { srcCode, codeSize }, mappedCodes);
@@ -296,20 +300,12 @@ void handleRangeMapping(PdfCharCodeMap& map,
     uint32_t srcCodeLo, const vector<char32_t>& dstCodeLo,
     unsigned char codeSize, unsigned rangeSize)
 {
-    auto it = dstCodeLo.begin();
-    auto end = dstCodeLo.end();
-    PDFMM_INVARIANT(it != end);
+    if (dstCodeLo.size() == 0)
+        return;
+
     char32_t back = dstCodeLo.back();
-    vector<char32_t> newdstbase;
     // Compute a destination string that has all code points except the last one
-    if (dstCodeLo.size() != 1)
-    {
-        do
-        {
-            newdstbase.push_back(*it);
-            it++;
-        } while (it != end);
-    }
+    vector<char32_t> newdstbase(dstCodeLo.begin(), dstCodeLo.end() - 1);
 
     // Compute new destination string with last chracter/code point incremented by one
     vector<char32_t> newdst;
@@ -329,6 +325,9 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     if (var.IsNumber())
     {
         int64_t num = var.GetNumber();
+        if (num < 0 || num > (int64_t)numeric_limits<uint32_t>::max())
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The code can't be represented with 4 bytes");
+
         uint32_t ret = (uint32_t)num;
         if (num == 0)
         {
@@ -351,16 +350,29 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     uint32_t ret = 0;
     auto& rawstr = str.GetRawData();
     unsigned len = (unsigned)rawstr.length();
+    if (len == 0 || len > sizeof(uint32_t))
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The code can't be empty or longer than 4 bytes");
+
     for (unsigned i = 0; i < len; i++)
     {
         uint8_t code = (uint8_t)rawstr[len - 1 - i];
-        ret += code << i * 8;
+        ret += (uint32_t)code << i * 8;
     }
 
     codeSize = len;
     return ret;
 }
 
+// NOTE: Neither characters nor CIDs allow for larger ranges
+unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi)
+{
+    constexpr uint32_t MaxRangeSize = 0x110000;
+    if (srcCodeHi < srcCodeLo || srcCodeHi - srcCodeLo >= MaxRangeSize)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid range of codes");
+
+    return srcCodeHi - srcCodeLo + 1;
+}
+
 void pushMapping(PdfCharCodeMap& map, const PdfCharCode& codeUnit, const vector<char32_t>& codePoints)
 {
     if (codePoints.size() == 0)
diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index cd65fd5..867dcbc 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -28,7 +28,12 @@ PdfCharCodeMap::~PdfCharCodeMap()
 
 PdfCharCodeMap& PdfCharCodeMap::operator=(PdfCharCodeMap&& map) noexcept
 {
-    move(map);
+    if (this != &map)
+    {
+        deleteNode(m_codePointMapHead);
+        move(map);
+    }
+
     return *this;
 }
 
@@ -128,7 +133,7 @@ bool PdfCharCodeMap::TryGetCharCode(codepoint codePoint, PdfCharCode& code) cons
 {
     const_cast<PdfCharCodeMap&>(*this).reviseCPMap();
     auto node = findNode(m_codePointMapHead, codePoint);
-    if (node == nullptr)
+    if (node == nullptr || node->CodeUnit.CodeSpaceSize == 0)
     {
         code = { };
         return false;
diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 6533d83..740aff7 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2656,19 +2656,23 @@ char32_t PdfDifferenceEncoding::NameToCodePoint(const string_view& name)
     }
 
     // if we get here, then we might be looking up an undefined codepoint
-    // so try looking for our special format..
-    if (name.substr(0, 3) == "uni")
-    {
-        auto code = name.substr(3);
-        // force base16 IF it's 4 characters line
-        unsigned val;
-        if (std::from_chars(code.data(), name.data() + name.length(), val, code.length() == 4 ? 16 : 10).ec != std::errc())
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
+    // so try the formats "uniXXXX" and "uXXXX", "uXXXXX", "uXXXXXX" of the
+    // Adobe Glyph List Specification, with hexadecimal digits
+    string_view code;
+    if (name.length() == 7 && name.substr(0, 3) == "uni")
+        code = name.substr(3);
+    else if (name.length() >= 5 && name.length() <= 7 && name[0] == 'u')
+        code = name.substr(1);
+    else
+        return U'\0';
 
-        return (char32_t)val;
-    }
+    unsigned val;
+    auto end = code.data() + code.length();
+    auto result = std::from_chars(code.data(), end, val, 16);
+    if (result.ec != std::errc() || result.ptr != end || val > 0x10FFFF)
+        return U'\0';
 
-    return U'\0';
+    return (char32_t)val;
 }
 
 PdfName PdfDifferenceEncoding::CodePointToName(char32_t inCodePoint)
@@ -2689,6 +2693,10 @@ PdfName PdfDifferenceEncoding::CodePointToName(char32_t inCodePoint)
     // if we get here, then we are looking up an undefined codepoint
     // so we'll just give it an arbitrary name..
     string buffer;
-    utls::FormatTo(buffer, "uni{:04x}", (unsigned)inCodePoint);
+    if (inCodePoint > 0xFFFF)
+        utls::FormatTo(buffer, "u{:05X}", (unsigned)inCodePoint);
+    else
+        utls::FormatTo(buffer, "uni{:04X}", (unsigned)inCodePoint);
+
     return PdfName(buffer);
 }
diff --git a/src/pdfmm/base/PdfEncoding.cpp b/src/pdfmm/base/PdfEncoding.cpp
index dab5a23..e43fd7c 100644
--- a/src/pdfmm/base/PdfEncoding.cpp
+++ b/src/pdfmm/base/PdfEncoding.cpp
@@ -51,7 +51,7 @@ PdfEncoding::PdfEncoding(const PdfObject& fontObj, const PdfEncodingMapConstPtr&
     if (lastCharObj != nullptr)
         m_ParsedLimits.LastChar = PdfCharCode(static_cast<unsigned>(lastCharObj->GetNumber()));
 
-    if (m_ParsedLimits.LastChar.Code > m_ParsedLimits.FirstChar.Code)
+    if (m_ParsedLimits.LastChar.Code >= m_ParsedLimits.FirstChar.Code)
     {
         // If found valid /FirstChar and /LastChar, valorize
         //  also the code size limits
@@ -566,77 +566,40 @@ void PdfEncoding::writeCIDMapping(PdfObject& cmapObj, const PdfFont& font, const
         "   /Supplement 0\n"
         ">> def\n"
         "/CMapName /{} def\n"
-        "/CMapType 1 def\n"     // As defined in Adobe Technical Notes #5099
-        "1 begincodespacerange\n", fontName, cmapName);
+        "/CMapType 1 def\n",     // As defined in Adobe Technical Notes #5099
+        fontName, cmapName);
     output.Write(temp);
 
     if (font.IsSubsettingEnabled())
     {
-        struct Limit
-        {
-            PdfCharCode FirstCode;
-            PdfCharCode LastCode;
-        };
-
-        unordered_map<unsigned char, Limit> ranges;
-        auto& usedGids = font.GetUsedGIDs();
-        for (auto& pair : usedGids)
-        {
-            auto& codeUnit = pair.second.Unit;
-            auto found = ranges.find(codeUnit.CodeSpaceSize);
-            if (found == ranges.end())
-            {
-                ranges[codeUnit.CodeSpaceSize] = Limit{ codeUnit, codeUnit };
-            }
-            else
-            {
-                auto& limit = found->second;
-                if (codeUnit.Code < limit.FirstCode.Code)
-                    limit.FirstCode = codeUnit;
+        vector<PdfCharCode> codes;
+        for (auto& pair : font.GetUsedGIDs())
+            codes.push_back(pair.second.Unit);
 
-                if (codeUnit.Code > limit.LastCode.Code)
-                    limit.LastCode = codeUnit;
-            }
-        }
-
-        bool first = true;
-        for (auto& pair : ranges)
-        {
-            if (first)
-                first = false;
-            else
-                output.Write("\n");
-
-            auto& range = pair.second;
-            range.FirstCode.WriteHexTo(temp);
-            output.Write(temp);
-            range.LastCode.WriteHexTo(temp);
-            output.Write(temp);
-        }
+        PdfEncodingMap::AppendCodeSpaceRanges(output, codes, temp);
     }
     else
     {
         m_Encoding->AppendCodeSpaceRange(output, temp);
     }
 
-    output.Write("\nendcodespacerange\n");
-
     if (font.IsSubsettingEnabled())
     {
         auto& usedGids = font.GetUsedGIDs();
-        output.Write(std::to_string(usedGids.size()));
-        output.Write(" begincidchar\n");
         string code;
+        size_t index = 0;
         for (auto& pair : usedGids)
         {
+            PdfEncodingMap::BeginSection(output, "cidchar", index, usedGids.size());
             auto& cid = pair.second;
             cid.Unit.WriteHexTo(code);
             output.Write(code);
             output.Write(" ");
             output.Write(std::to_string(cid.Id));
             output.Write("\n");;
+            PdfEncodingMap::EndSection(output, "cidchar", index, usedGids.size());
+            index++;
         }
-        output.Write("endcidchar\n");
     }
     else
     {
@@ -670,11 +633,8 @@ void PdfEncoding::writeToUnicodeCMap(PdfObject& cmapObj) const
         "   /Supplement 0\n"
         ">> def\n"
         "/CMapName /Adobe-Identity-UCS def\n"
-        "/CMapType 2 def\n"     // As defined in Adobe Technical Notes #5099
-        "1 begincodespacerange\n");
+        "/CMapType 2 def\n");     // As defined in Adobe Technical Notes #5099
     toUnicode.AppendCodeSpaceRange(output, temp);
-    output.Write("\nendcodespacerange\n");
-
     toUnicode.AppendToUnicodeEntries(output, temp);
     output.Write(
         "\nendcmap\n"
diff --git a/src/pdfmm/base/PdfEncodingCommon.cpp b/src/pdfmm/base/PdfEncodingCommon.cpp
index c19a8d4..a6682f5 100644
--- a/src/pdfmm/base/PdfEncodingCommon.cpp
+++ b/src/pdfmm/base/PdfEncodingCommon.cpp
@@ -27,6 +27,9 @@ PdfCharCode::PdfCharCode(unsigned code, unsigned char codeSpaceSize)
 
 bool PdfCharCode::operator<(const PdfCharCode& rhs) const
 {
+    if (CodeSpaceSize != rhs.CodeSpaceSize)
+        return CodeSpaceSize < rhs.CodeSpaceSize;
+
     return Code < rhs.Code;
 }
 
diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..a8a0281 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -16,6 +16,9 @@
 using namespace std;
 using namespace mm;
 
+// Adobe tecnichal notes #5014 limits the entries of a section
+constexpr size_t MaxSectionSize = 100;
+
 PdfEncodingMap::PdfEncodingMap(PdfEncodingMapType type)
     : m_Type(type) { }
 
@@ -185,7 +188,20 @@ bool PdfEncodingMap::TryGetCIDId(const PdfCharCode& codeUnit, unsigned& cid) con
 bool PdfEncodingMap::TryGetCodePoints(const PdfCharCode& codeUnit, vector<char32_t>& codePoints) const
 {
     codePoints.clear();
-    return tryGetCodePoints(codeUnit, codePoints);
+    if (tryGetCodePoints(codeUnit, codePoints))
+        return true;
+
+    auto& limits = GetLimits();
+    for (unsigned i = limits.MinCodeSize; i <= limits.MaxCodeSize; i++)
+    {
+        if (i != codeUnit.CodeSpaceSize
+            && tryGetCodePoints({ codeUnit.Code, (unsigned char)i }, codePoints))
+        {
+            return true;
+        }
+    }
+
+    return false;
 }
 
 bool PdfEncodingMap::IsBuiltinEncoding() const
@@ -272,11 +288,84 @@ void PdfEncodingMap::AppendUTF16CodeTo(OutputStream& stream, const unicodeview&
 
 void PdfEncodingMap::AppendCodeSpaceRange(OutputStream& stream, charbuff& temp) const
 {
+    // The bytes following the first one that is different
+    // in the limits may assume any value
     auto& limits = GetLimits();
-    limits.FirstChar.WriteHexTo(temp);
-    stream.Write(temp);
-    limits.LastChar.WriteHexTo(temp);
+    unsigned bits = 0;
+    while ((uint64_t)limits.FirstChar.Code >> (bits + CHAR_BIT) != (uint64_t)limits.LastChar.Code >> (bits + CHAR_BIT))
+        bits += CHAR_BIT;
+
+    unsigned mask = (1u << bits) - 1;
+    AppendCodeSpaceRanges(stream, {
+        PdfCharCode(limits.FirstChar.Code & ~mask, limits.FirstChar.CodeSpaceSize),
+        PdfCharCode(limits.LastChar.Code | mask, limits.LastChar.CodeSpaceSize) }, temp);
+}
+
+void PdfEncodingMap::AppendCodeSpaceRanges(OutputStream& stream, const vector<PdfCharCode>& codes, charbuff& temp)
+{
+    struct Limit
+    {
+        unsigned char First[4];
+        unsigned char Last[4];
+    };
+
+    map<unsigned char, Limit> ranges;
+    for (auto& code : codes)
+    {
+        auto inserted = ranges.insert({ code.CodeSpaceSize, Limit() });
+        auto& limit = inserted.first->second;
+        for (unsigned i = 0; i < std::size(limit.First); i++)
+        {
+            auto byte = (unsigned char)(code.Code >> i * CHAR_BIT);
+            if (inserted.second || byte < limit.First[i])
+                limit.First[i] = byte;
+
+            if (inserted.second || byte > limit.Last[i])
+                limit.Last[i] = byte;
+        }
+    }
+
+    if (ranges.size() == 0)
+        return;
+
+    auto getCode = [](const unsigned char (&bytes)[4]) -> unsigned
+    {
+        return (unsigned)bytes[0] | (unsigned)bytes[1] << 8 | (unsigned)bytes[2] << 16 | (unsigned)bytes[3] << 24;
+    };
+
+    utls::FormatTo(temp, ranges.size());
     stream.Write(temp);
+    stream.Write(" begincodespacerange\n");
+    for (auto& pair : ranges)
+    {
+        PdfCharCode(getCode(pair.second.First), pair.first).WriteHexTo(temp);
+        stream.Write(temp);
+        PdfCharCode(getCode(pair.second.Last), pair.first).WriteHexTo(temp);
+        stream.Write(temp);
+        stream.Write("\n");
+    }
+    stream.Write("endcodespacerange\n");
+}
+
+void PdfEncodingMap::BeginSection(OutputStream& stream, const string_view& name, size_t index, size_t count)
+{
+    if (index % MaxSectionSize != 0)
+        return;
+
+    stream.Write(std::to_string(std::min(count - index, MaxSectionSize)));
+    stream.Write(" begin");
+    stream.Write(name);
+    stream.Write("\n");
+}
+
+void PdfEncodingMap::EndSection(OutputStream& stream, const string_view& name, size_t index, size_t count)
+{
+    if ((index + 1) % MaxSectionSize != 0 && index + 1 != count)
+        return;
+
+    stream.Write("end");
+    stream.Write(name);
+    stream.Write("\n");
 }
 
 PdfEncodingMapBase::PdfEncodingMapBase(PdfCharCodeMap&& map, PdfEncodingMapType type)
@@ -287,11 +376,11 @@ PdfEncodingMapBase::PdfEncodingMapBase(PdfCharCodeMap&& map, PdfEncodingMapType
 void PdfEncodingMapBase::AppendCIDMappingEntries(OutputStream& stream, const PdfFont& font, charbuff& temp) const
 {
     (void)font;
-    utls::FormatTo(temp, m_charMap->GetSize());
-    stream.Write(temp);
-    stream.Write(" begincidchar\n");
+    size_t count = m_charMap->GetSize();
+    size_t index = 0;
     for (auto& pair : *m_charMap)
     {
+        BeginSection(stream, "cidchar", index, count);
         auto& unit = pair.first;
         unsigned cid = pair.second[0]; // We assume the cid to be in the single element
         unit.WriteHexTo(temp);
@@ -300,53 +389,18 @@ void PdfEncodingMapBase::AppendCIDMappingEntries(OutputStream& stream, const Pdf
         utls::FormatTo(temp, cid);
         stream.Write(temp);
         stream.Write("\n");;
+        EndSection(stream, "cidchar", index, count);
+        index++;
     }
-    stream.Write("endcidchar\n");
 }
 
 void PdfEncodingMapBase::AppendCodeSpaceRange(OutputStream& stream, charbuff& temp) const
 {
-    // CHECK-ME: The limit inferr may be not needed anymore
-    struct Limit
-    {
-        PdfCharCode FirstCode;
-        PdfCharCode LastCode;
-    };
-
-    unordered_map<unsigned char, Limit> ranges;
+    vector<PdfCharCode> codes;
     for (auto& pair : *m_charMap)
-    {
-        auto& codeUnit = pair.first;
-        auto found = ranges.find(codeUnit.CodeSpaceSize);
-        if (found == ranges.end())
-        {
-            ranges[codeUnit.CodeSpaceSize] = Limit{ codeUnit, codeUnit };
-        }
-        else
-        {
-            auto& limit = found->second;
-            if (codeUnit.Code < limit.FirstCode.Code)
-                limit.FirstCode = codeUnit;
-
-            if (codeUnit.Code > limit.LastCode.Code)
-                limit.LastCode = codeUnit;
-        }
-    }
-
-    bool first = true;
-    for (auto& pair : ranges)
-    {
-        if (first)
-            first = false;
-        else
-            stream.Write("\n");
+        codes.push_back(pair.first);
 
-        auto& range = pair.second;
-        range.FirstCode.WriteHexTo(temp);
-        stream.Write(temp);
-        range.LastCode.WriteHexTo(temp);
-        stream.Write(temp);
-    }
+    AppendCodeSpaceRanges(stream, codes, temp);
 }
 
 void PdfEncodingMapBase::AppendToUnicodeEntries(OutputStream& stream, charbuff& temp) const
@@ -354,18 +408,19 @@ void PdfEncodingMapBase::AppendToUnicodeEntries(OutputStream& stream, charbuff&
     // Very easy, just do a list of bfchar
     // Use PdfEncodingMap::AppendUTF16CodeTo
     u16string u16temp;
-    utls::FormatTo(temp, m_charMap->GetSize());
-    stream.Write(temp);
-    stream.Write(" beginbfchar\n");
+    size_t count = m_charMap->GetSize();
+    size_t index = 0;
     for (auto& pair : *m_charMap)
     {
+        BeginSection(stream, "bfchar", index, count);
         pair.first.WriteHexTo(temp);
         stream.Write(temp);
         stream.Write(" ");
         PdfEncodingMap::AppendUTF16CodeTo(stream, pair.second, u16temp);
         stream.Write("\n");
+        EndSection(stream, "bfchar", index, count);
+        index++;
     }
-    stream.Write("endbfchar");
 }
 
 PdfEncodingMapBase::PdfEncodingMapBase(const shared_ptr<PdfCharCodeMap>& map, PdfEncodingMapType type)
@@ -419,7 +474,7 @@ void PdfEncodingMapOneByte::AppendToUnicodeEntries(OutputStream& stream, charbuf
     stream.Write(temp);
     stream.Write(" [\n");
     u16string u16tmp;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         if (!TryGetCodePoints(PdfCharCode(code), codePoints))
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Unable to find character code");
@@ -446,7 +501,7 @@ void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const
     };
 
     vector<Mapping> mappings;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         PdfCharCode charCode(code);
         if (!TryGetCodePoints(charCode, codePoints))
@@ -463,19 +518,18 @@ void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const
         // we assume cid == gid identity
         mappings.push_back({ charCode, gid });
     }
-    utls::FormatTo(temp, mappings.size());
-    stream.Write(temp);
-    stream.Write(" begincidchar\n");
-    for (auto& mapping : mappings)
+    for (size_t i = 0; i < mappings.size(); i++)
     {
+        auto& mapping = mappings[i];
+        BeginSection(stream, "cidchar", i, mappings.size());
         mapping.Code.WriteHexTo(temp);
         stream.Write(temp);
         stream.Write(" ");
         utls::FormatTo(temp, mapping.CID);
         stream.Write(temp);
         stream.Write("\n");
+        EndSection(stream, "cidchar", i, mappings.size());
     }
-    stream.Write("endcidchar\n");
 }
 
 const PdfEncodingLimits& PdfEncodingMapOneByte::GetLimits() const
diff --git a/src/pdfmm/base/PdfEncodingMap.h b/src/pdfmm/base/PdfEncodingMap.h
index c3ca2c8..3c952b8 100644
--- a/src/pdfmm/base/PdfEncodingMap.h
+++ b/src/pdfmm/base/PdfEncodingMap.h
@@ -145,6 +145,21 @@ protected:
 
     static void AppendUTF16CodeTo(OutputStream& stream, const unicodeview& codePoints, std::u16string& u16tmp);
 
+    /** Append a "begincodespacerange" section with ranges that include all the given codes
+     *
+     * \remarks Each byte of a code is matched separately against the respective
+     *  bytes of the range, see ISO 32000-1:2008 "9.7.6.2 CMap Mapping"
+     */
+    static void AppendCodeSpaceRanges(OutputStream& stream, const std::vector<PdfCharCode>& codes, charbuff& temp);
+
+    /** Append the heading of a section, when the entry at the given index requires one
+     *
+     * \remarks The sections have 100 entries at most, see Adobe tecnichal notes #5014
+     */
+    static void BeginSection(OutputStream& stream, const std::string_view& name, size_t index, size_t count);
+
+    static void EndSection(OutputStream& stream, const std::string_view& name, size_t index, size_t count);
+
 protected:
     virtual void AppendCodeSpaceRange(OutputStream& stream, charbuff& temp) const;
 
diff --git a/src/pdfmm/base/PdfIdentityEncoding.cpp b/src/pdfmm/base/PdfIdentityEncoding.cpp
index 491d3ff..1365803 100644
--- a/src/pdfmm/base/PdfIdentityEncoding.cpp
+++ b/src/pdfmm/base/PdfIdentityEncoding.cpp
@@ -39,7 +39,7 @@ PdfIdentityEncoding::PdfIdentityEncoding(PdfIdentityOrientation orientation)
 bool PdfIdentityEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUnit) const
 {
     PDFMM_INVARIANT(m_Limits.MinCodeSize == m_Limits.MaxCodeSize);
-    if (utls::GetCharCodeSize(codePoint) > m_Limits.MaxCodeSize)
+    if (codePoint < m_Limits.FirstChar.Code || codePoint > m_Limits.LastChar.Code)
     {
         codeUnit = { };
         return false;
@@ -51,6 +51,9 @@ bool PdfIdentityEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUn
 
 bool PdfIdentityEncoding::tryGetCodePoints(const PdfCharCode& codeUnit, vector<char32_t>& codePoints) const
 {
+    if (codeUnit.Code < m_Limits.FirstChar.Code || codeUnit.Code > m_Limits.LastChar.Code)
+        return false;
+
     codePoints.push_back((char32_t)codeUnit.Code);
     return true;
 }
@@ -77,20 +80,40 @@ void PdfIdentityEncoding::getExportObject(PdfIndirectObjectList& objects, PdfNam
 
 void PdfIdentityEncoding::AppendToUnicodeEntries(OutputStream& stream, charbuff& temp) const
 {
-    // Very easy, just do a single bfrange
+    // Very easy, just do bfrange(s) where only the last byte varies.
+    // Skip the codes that are not characters
     // Use PdfEncodingMap::AppendUTF16CodeTo
+    constexpr unsigned LastCharacter = 0x10FFFF;
+    struct Range
+    {
+        unsigned First;
+        unsigned Last;
+    };
+
+    vector<Range> ranges;
+    unsigned last = std::min(m_Limits.LastChar.Code, LastCharacter);
+    for (unsigned code = m_Limits.FirstChar.Code; code <= last; code = (code | 0xFF) + 1)
+    {
+        if (code < 0xD800 || code > 0xDFFF)
+            ranges.push_back({ code, std::min(code | 0xFF, last) });
+    }
 
     u16string u16temp;
-    stream.Write("1 beginbfrange\n");
-    m_Limits.FirstChar.WriteHexTo(temp);
-    stream.Write(temp);
-    stream.Write(" ");
-    m_Limits.LastChar.WriteHexTo(temp);
-    stream.Write(temp);
-    stream.Write(" ");
-    PdfEncodingMap::AppendUTF16CodeTo(stream, m_Limits.FirstChar.Code, u16temp);
-    stream.Write("\n");
-    stream.Write("endbfrange");
+    auto codeSize = m_Limits.FirstChar.CodeSpaceSize;
+    for (size_t i = 0; i < ranges.size(); i++)
+    {
+        auto& range = ranges[i];
+        BeginSection(stream, "bfrange", i, ranges.size());
+        PdfCharCode(range.First, codeSize).WriteHexTo(temp);
+        stream.Write(temp);
+        stream.Write(" ");
+        PdfCharCode(range.Last, codeSize).WriteHexTo(temp);
+        stream.Write(temp);
+        stream.Write(" ");
+        PdfEncodingMap::AppendUTF16CodeTo(stream, range.First, u16temp);
+        stream.Write("\n");
+        EndSection(stream, "bfrange", i, ranges.size());
+    }
 }
 
 void PdfIdentityEncoding::AppendCIDMappingEntries(OutputStream& stream, const PdfFont& font, charbuff& temp) const
@@ -112,5 +135,5 @@ PdfEncodingLimits getLimits(unsigned char codeSpaceSize)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Code space size can't be zero or bigger than 4");
 
     return { codeSpaceSize, codeSpaceSize, PdfCharCode(0, codeSpaceSize),
-        PdfCharCode((unsigned)std::pow(2, codeSpaceSize * CHAR_BIT), codeSpaceSize) };
+        PdfCharCode(utls::GetCharCodeMaxValue(codeSpaceSize), codeSpaceSize) };
 }
diff --git a/src/pdfmm/base/PdfPredefinedEncoding.cpp b/src/pdfmm/base/PdfPredefinedEncoding.cpp
index 635662e..0e6e7c3 100644
--- a/src/pdfmm/base/PdfPredefinedEncoding.cpp
+++ b/src/pdfmm/base/PdfPredefinedEncoding.cpp
@@ -531,7 +531,7 @@ const char32_t PdfMacRomanEncoding::s_cEncoding[256] = {
     0x00FF, // LATIN SMALL LETTER Y WITH DIAERESIS
     0x0178, // LATIN CAPITAL LETTER Y WITH DIAERESIS
     0x2044, // FRACTION SLASH
-    0x20AC, // EURO SIGN
+    0x00A4, // CURRENCY SIGN
     0x2039, // SINGLE LEFT-POINTING ANGLE QUOTATION MARK
     0x203A, // SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
     0xFB01, // LATIN SMALL LIGATURE FI
@@ -723,14 +723,7 @@ const char32_t PdfStandardEncoding::s_cEncoding[256] = {
         0x005D,  // 5D   # RIGHT SQUARE BRACKET   # bracketright
         0x005E,  // 5E   # CIRCUMFLEX ACCENT   # asciicircum
         0x005F,  // 5F   # LOW LINE   # underscore
-    #if 1
-        0x0060,  // 60   # GRAVE ACCENT
-    #else
-        // OC 13.08.2010: See http://unicode.org/Public/MAPPINGS/VENDORS/ADOBE/stdenc.txt
-        // The following unicode char should be encoded here.
-        // But i keep the identity ascii 7bit sign.
         0x2018,  // 60   # LEFT SINGLE QUOTATION MARK   # quoteleft
-    #endif
         0x0061,  // 61   # LATIN SMALL LETTER A   # a
         0x0062,  // 62   # LATIN SMALL LETTER B   # b
         0x0063,  // 63   # LATIN SMALL LETTER C   # c
-- 
2.43.0


From 0a5d2a55f20a3bc1efdf0876b9487037dc4c4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 51/66] fix: metrics, checksums and directory of TrueType
 subsets

---
 src/pdfmm/base/PdfFontTrueTypeSubset.cpp | 61 +++++++++++++-----------
 src/pdfmm/base/PdfFontTrueTypeSubset.h   |  1 -
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/pdfmm/base/PdfFontTrueTypeSubset.cpp b/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
index d4eef0b..17def9d 100644
--- a/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
+++ b/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
@@ -48,8 +48,7 @@ PdfFontTrueTypeSubset::PdfFontTrueTypeSubset(InputStreamDevice& device) :
     m_device(&device),
     m_isLongLoca(false),
     m_glyphCount(0),
-    m_HMetricsCount(0),
-    m_HMetricsCountNew(0)
+    m_HMetricsCount(0)
 {
 }
 
@@ -190,7 +189,7 @@ void PdfFontTrueTypeSubset::InitTables()
             m_tables.push_back(tbl);
     }
 
-    if ((tableMask & ReqTable::all) == ReqTable::none)
+    if ((tableMask & ReqTable::all) != ReqTable::all)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFontFormat, "Required TrueType table missing");
 }
 
@@ -216,7 +215,9 @@ void PdfFontTrueTypeSubset::LoadGlyphs(GlyphContext& ctx, const GIDList& gidList
     m_orderedGIDs.push_back(0);
     for (unsigned gid : gidList)
     {
-        glyphIndexMap.insert({ gid, (unsigned)glyphIndexMap.size() });
+        // NOTE: The index is the position in the list of the
+        // ordered GIDs, also when a GID appears more times
+        glyphIndexMap.insert({ gid, (unsigned)m_orderedGIDs.size() });
         m_orderedGIDs.push_back(gid);
     }
 
@@ -233,7 +234,7 @@ void PdfFontTrueTypeSubset::LoadGlyphs(GlyphContext& ctx, const GIDList& gidList
             unsigned componentGlyphIdOffset = glyphData.GlyphAdvOffset + offset;
             ReadGlyphCompoundData(cmpData, componentGlyphIdOffset);
             // Try remap the GID
-            auto inserted = glyphIndexMap.insert({ cmpData.GlyphIndex, (unsigned)glyphIndexMap.size() });
+            auto inserted = glyphIndexMap.insert({ cmpData.GlyphIndex, (unsigned)m_orderedGIDs.size() });
             if (inserted.second)
             {
                 // If insertion occurred, insert it to the original GIDs ordered list
@@ -257,10 +258,6 @@ void PdfFontTrueTypeSubset::LoadGID(GlyphContext& ctx, unsigned gid)
     if (m_glyphDatas.find(gid) != m_glyphDatas.end())
         return;
 
-    // Try to advance new count of HMetrics
-    if (gid < m_HMetricsCount)
-        m_HMetricsCountNew++;
-
     // https://docs.microsoft.com/en-us/typography/opentype/spec/loca
     auto& glyphData = m_glyphDatas[gid] = { };
     if (m_isLongLoca)
@@ -295,6 +292,9 @@ void PdfFontTrueTypeSubset::LoadGID(GlyphContext& ctx, unsigned gid)
 
     glyphData.GlyphAdvOffset = glyphData.GlyphOffset + 5 * sizeof(uint16_t);
 
+    if (glyphData.GlyphLength == 0)
+        return; // The glyph has no outline
+
     m_device->Seek(glyphData.GlyphOffset);
     utls::ReadInt16BE(*m_device, ctx.ContourCount);
     if (ctx.ContourCount < 0)
@@ -356,9 +356,14 @@ void PdfFontTrueTypeSubset::WriteHmtxTable(OutputStream& output)
         int16_t LeftSideBearing;
     };
 
+    if (m_HMetricsCount == 0)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Missing horizontal metrics");
+
+    // NOTE: The glyphs that share the last advance in the original
+    // font may be anywhere in the subset, so write the full metrics
+    // for all the glyphs
     unsigned hmtxTableOffset = GetTableOffset(TTAG_hmtx);
     unsigned leftSideBearingsOffset = hmtxTableOffset + m_HMetricsCount * sizeof(LongHorMetrics);
-    vector<int16_t> leftSideBearings;
     for (unsigned gid : m_orderedGIDs)
     {
         if (gid < m_HMetricsCount)
@@ -368,17 +373,12 @@ void PdfFontTrueTypeSubset::WriteHmtxTable(OutputStream& output)
         }
         else
         {
-            // The full horizontal metrics doesn't exists, just copy the left side bearibgs
-            m_device->Seek(leftSideBearingsOffset + sizeof(int16_t) * (gid - m_HMetricsCount));
-            int16_t leftSideBearing;
-            utls::ReadInt16BE(*m_device, leftSideBearing);
-            leftSideBearings.push_back(leftSideBearing);
+            // The full horizontal metrics doesn't exists, use the last
+            // advance width and the left side bearing of the glyph
+            CopyData(output, hmtxTableOffset + (m_HMetricsCount - 1) * sizeof(LongHorMetrics), sizeof(uint16_t));
+            CopyData(output, leftSideBearingsOffset + sizeof(int16_t) * (gid - m_HMetricsCount), sizeof(int16_t));
         }
     }
-
-    // Write left side bearings
-    for (unsigned i = 0; i < leftSideBearings.size(); i++)
-        utls::WriteInt16BE(output, leftSideBearings[i]);
 }
 
 // "The 'loca' table stores the offsets to the locations
@@ -421,8 +421,8 @@ void PdfFontTrueTypeSubset::WriteTables(string& buffer)
 {
     StringStreamDevice output(buffer);
 
-    uint16_t entrySelector = (uint16_t)std::ceil(std::log2(m_tables.size()));
-    uint16_t searchRange = (uint16_t)std::pow(2, entrySelector);
+    uint16_t entrySelector = (uint16_t)std::floor(std::log2(m_tables.size()));
+    uint16_t searchRange = (uint16_t)(16 * std::pow(2, entrySelector));
     uint16_t rangeShift = (16 * (uint16_t)m_tables.size()) - searchRange;
 
     // Write the font directory table
@@ -458,19 +458,19 @@ void PdfFontTrueTypeSubset::WriteTables(string& buffer)
                 headOffset = tableOffset;
                 CopyData(output, table.Offset, table.Length);
                 // Set the checkSumAdjustment to 0
-                utls::WriteUInt32BE(buffer.data() + tableOffset + 4, 0);
+                utls::WriteUInt32BE(buffer.data() + tableOffset + 8, 0);
                 break;
             case TTAG_maxp:
                 // https://docs.microsoft.com/en-us/typography/opentype/spec/maxp
                 CopyData(output, table.Offset, table.Length);
                 // Write the number of glyphs in the font
-                utls::WriteUInt16BE(buffer.data() + tableOffset + 4, (uint16_t)m_glyphDatas.size());
+                utls::WriteUInt16BE(buffer.data() + tableOffset + 4, (uint16_t)m_orderedGIDs.size());
                 break;
             case TTAG_hhea:
                 // https://docs.microsoft.com/en-us/typography/opentype/spec/hhea
                 CopyData(output, table.Offset, table.Length);
                 // Write numOfLongHorMetrics, see also 'hmtx' table
-                utls::WriteUInt16BE(buffer.data() + tableOffset + 34, m_HMetricsCountNew);
+                utls::WriteUInt16BE(buffer.data() + tableOffset + 34, (uint16_t)m_orderedGIDs.size());
                 break;
             case TTAG_post:
                 // https://docs.microsoft.com/en-us/typography/opentype/spec/post
@@ -518,7 +518,7 @@ void PdfFontTrueTypeSubset::WriteTables(string& buffer)
     // As explained in the "Table Directory"
     // https://docs.microsoft.com/en-us/typography/opentype/spec/otff#tabledirectory
     uint32_t fontChecksum = 0xB1B0AFBA - GetTableCheksum(buffer.data(), (uint32_t)output.GetPosition());
-    utls::WriteUInt32BE(buffer.data() + *headOffset + 4, fontChecksum);
+    utls::WriteUInt32BE(buffer.data() + *headOffset + 8, fontChecksum);
 }
 
 void PdfFontTrueTypeSubset::ReadGlyphCompoundData(GlyphCompoundData& data, unsigned offset)
@@ -569,8 +569,15 @@ uint32_t GetTableCheksum(const char* buf, uint32_t size)
     // https://docs.microsoft.com/en-us/typography/opentype/spec/otff#tabledirectory
     uint32_t sum = 0;
     uint32_t nLongs = (size + 3) / 4;
-    while (nLongs-- > 0)
-        sum += *buf++;
+    for (uint32_t i = 0; i < nLongs; i++)
+    {
+        // NOTE: The last value is padded with zeroes
+        uint32_t value = 0;
+        for (uint32_t j = i * 4; j < i * 4 + 4; j++)
+            value = (value << 8) | (j < size ? (unsigned char)buf[j] : 0);
+
+        sum += value;
+    }
 
     return sum;
 }
diff --git a/src/pdfmm/base/PdfFontTrueTypeSubset.h b/src/pdfmm/base/PdfFontTrueTypeSubset.h
index 97b2612..d91d1ff 100644
--- a/src/pdfmm/base/PdfFontTrueTypeSubset.h
+++ b/src/pdfmm/base/PdfFontTrueTypeSubset.h
@@ -126,7 +126,6 @@ private:
     bool m_isLongLoca;
     uint16_t m_glyphCount;
     uint16_t m_HMetricsCount;
-    uint16_t m_HMetricsCountNew;
 
     std::vector<TrueTypeTable> m_tables;
     GlyphDatas m_glyphDatas;
-- 
2.43.0


From 2ea60a837e40760d1c4d6722ed60cd8e904cc3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 52/66] fix: widths of composite and standard fonts, metrics of
 fonts not embedded, subtype of OpenType files

---
 src/pdfmm/base/PdfFont.cpp       | 38 +++++++++++++++++++++++++++-----
 src/pdfmm/base/PdfFont.h         |  7 ++++++
 src/pdfmm/base/PdfFontCID.cpp    |  7 +++++-
 src/pdfmm/base/PdfFontCID.h      |  1 +
 src/pdfmm/base/PdfFontObject.cpp |  8 +++++--
 src/pdfmm/base/PdfFontSimple.cpp | 12 ++++++++--
 src/pdfmm/base/PdfFontSimple.h   |  1 +
 7 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index 803e239..8ad5a51 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -229,9 +229,16 @@ void PdfFont::InitImported(bool wantEmbed, bool wantSubset)
 
 void PdfFont::EmbedFont()
 {
-    if (m_IsEmbedded || !m_EmbeddingEnabled)
+    if (m_IsEmbedded)
         return;
 
+    if (!m_EmbeddingEnabled)
+    {
+        // The font must be usable also when the font file is not embedded
+        exportMetrics();
+        return;
+    }
+
     if (m_SubsettingEnabled)
         embedFontSubset();
     else
@@ -240,6 +247,11 @@ void PdfFont::EmbedFont()
     m_IsEmbedded = true;
 }
 
+void PdfFont::exportMetrics()
+{
+    // By default do nothing
+}
+
 void PdfFont::embedFont()
 {
     PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Embedding not implemented for this font type");
@@ -552,7 +564,7 @@ void PdfFont::EmbedFontFileTrueType(PdfObject& descriptor, const bufferview& dat
 
 void PdfFont::EmbedFontFileOpenType(PdfObject& descriptor, const bufferview& data)
 {
-    auto contents = embedFontFileData(descriptor, "FontFile3", data);
+    auto& contents = embedFontFileData(descriptor, "FontFile3", data);
     contents.GetDictionary().AddKey(PdfName::KeySubtype, PdfName("OpenType"));
 }
 
@@ -683,7 +695,8 @@ PdfCharCode PdfFont::AddCharCodeSafe(unsigned gid, const unicodeview& codePoints
     if (m_DynamicToUnicodeMap->TryGetCharCode(codePoints, code))
         return code;
 
-    code = PdfCharCode(m_DynamicToUnicodeMap->GetSize());
+    // NOTE: All codes have the same size, so they can't be ambiguous
+    code = PdfCharCode(m_DynamicToUnicodeMap->GetSize(), 2);
     // NOTE: We assume in this context cid == gid identity
     m_DynamicCIDMap->PushMapping(code, gid);
     m_DynamicToUnicodeMap->PushMapping(code, codePoints);
@@ -739,7 +752,6 @@ bool PdfFont::tryConvertToGIDs(const std::string_view& utf8Str, PdfGlyphAccess a
     {
         auto it = utf8Str.begin();
         auto end = utf8Str.end();
-        vector<unsigned> gids;
         while (it != end)
         {
             char32_t cp = utf8::next(it, end);
@@ -771,11 +783,14 @@ bool PdfFont::tryAddSubsetGID(unsigned gid, const unicodeview& codePoints, PdfCI
     {
         // We start numberings CIDs from 1 since CID 0
         // is reserved for fallbacks
-        auto inserted = m_SubsetGIDs.try_emplace(gid, PdfCID((unsigned)m_SubsetGIDs.size() + 1));
+        // NOTE: All codes have the same size, so they can't be ambiguous
+        unsigned id = (unsigned)m_SubsetGIDs.size() + 1;
+        auto inserted = m_SubsetGIDs.try_emplace(gid, PdfCID(id, PdfCharCode(id, 2)));
         cid = inserted.first->second;
         if (!inserted.second)
             return false;
 
+        m_SubsetCIDToGIDs.push_back(gid);
         m_DynamicCIDMap->PushMapping(cid.Unit, cid.Id);
         m_DynamicToUnicodeMap->PushMapping(cid.Unit, codePoints);
         return true;
@@ -876,6 +891,19 @@ bool PdfFont::tryMapCIDToGID(unsigned cid, unsigned& gid) const
 
         return true;
     }
+    else if (m_SubsettingEnabled && m_Encoding->IsDynamicEncoding())
+    {
+        // CIDs are assigned in sequence starting from 1
+        // to the GIDs added to the subset
+        if (cid == 0 || cid > m_SubsetCIDToGIDs.size())
+        {
+            gid = 0;
+            return false;
+        }
+
+        gid = m_SubsetCIDToGIDs[cid - 1];
+        return true;
+    }
     else
     {
         // The font is not loaded, hence it's imported:
diff --git a/src/pdfmm/base/PdfFont.h b/src/pdfmm/base/PdfFont.h
index cbb7fa0..7013baf 100644
--- a/src/pdfmm/base/PdfFont.h
+++ b/src/pdfmm/base/PdfFont.h
@@ -365,6 +365,12 @@ protected:
      */
     virtual void initImported();
 
+    /**
+     * Write the encoding and the widths of the glyphs, when they
+     * are not already in the font
+     */
+    virtual void exportMetrics();
+
     virtual void embedFont();
 
     virtual void embedFontSubset();
@@ -427,6 +433,7 @@ private:
     bool m_IsEmbedded;
     bool m_SubsettingEnabled;
     UsedGIDsMap m_SubsetGIDs;
+    std::vector<unsigned> m_SubsetCIDToGIDs;
     PdfCIDToGIDMapConstPtr m_cidToGidMap;
     double m_WordSpacingLengthRaw;
 
diff --git a/src/pdfmm/base/PdfFontCID.cpp b/src/pdfmm/base/PdfFontCID.cpp
index 58f6422..4ccd736 100644
--- a/src/pdfmm/base/PdfFontCID.cpp
+++ b/src/pdfmm/base/PdfFontCID.cpp
@@ -101,9 +101,14 @@ void PdfFontCID::initImported()
 void PdfFontCID::embedFont()
 {
     PDFMM_ASSERT(m_descriptor != nullptr);
+    exportMetrics();
+    EmbedFontFile(*m_descriptor);
+}
+
+void PdfFontCID::exportMetrics()
+{
     createWidths(m_descendantFont->GetDictionary(), getIdentityCIDToGIDMap());
     m_Encoding->ExportToFont(*this);
-    EmbedFontFile(*m_descriptor);
 }
 
 PdfObject* PdfFontCID::getDescendantFontObject()
diff --git a/src/pdfmm/base/PdfFontCID.h b/src/pdfmm/base/PdfFontCID.h
index ac96b0b..8438cec 100644
--- a/src/pdfmm/base/PdfFontCID.h
+++ b/src/pdfmm/base/PdfFontCID.h
@@ -25,6 +25,7 @@ public:
     bool SupportsSubsetting() const override;
 
 protected:
+    void exportMetrics() override;
     void embedFont() override;
     PdfObject* getDescendantFontObject() override;
     void createWidths(PdfDictionary& fontDict, const CIDToGIDMap& glyphWidths);
diff --git a/src/pdfmm/base/PdfFontObject.cpp b/src/pdfmm/base/PdfFontObject.cpp
index f4dfa9f..d0dd986 100644
--- a/src/pdfmm/base/PdfFontObject.cpp
+++ b/src/pdfmm/base/PdfFontObject.cpp
@@ -13,7 +13,6 @@ using namespace mm;
 
 // All Standard14 fonts have glyphs that start with a
 // white space (code 0x20, or 32)
-static constexpr unsigned DEFAULT_STD14_FIRSTCHAR = 32;
 
 PdfFontObject::PdfFontObject(PdfObject& obj, const PdfFontMetricsConstPtr& metrics,
         const PdfEncoding& encoding) :
@@ -36,7 +35,12 @@ bool PdfFontObject::tryMapCIDToGID(unsigned cid, unsigned& gid) const
 {
     if (m_Metrics->IsStandard14FontMetrics() && !m_Encoding->HasParsedLimits())
     {
-        gid = cid - DEFAULT_STD14_FIRSTCHAR;
+        // The glyphs of the Standard14 fonts can be looked
+        // up only with the characters they represent
+        if (m_Encoding->IsSimpleEncoding())
+            return m_Metrics->TryGetGID(m_Encoding->GetCodePoint(cid), gid);
+
+        gid = cid;
     }
     else
     {
diff --git a/src/pdfmm/base/PdfFontSimple.cpp b/src/pdfmm/base/PdfFontSimple.cpp
index 868328f..3ba2c38 100644
--- a/src/pdfmm/base/PdfFontSimple.cpp
+++ b/src/pdfmm/base/PdfFontSimple.cpp
@@ -90,6 +90,16 @@ void PdfFontSimple::Init()
 void PdfFontSimple::embedFont()
 {
     PDFMM_ASSERT(m_Descriptor != nullptr);
+    exportMetrics();
+    EmbedFontFile(*m_Descriptor);
+}
+
+void PdfFontSimple::exportMetrics()
+{
+    // NOTE: Standard14 fonts that are not embedded don't need the metrics
+    if (m_Descriptor == nullptr)
+        return;
+
     this->GetObject().GetDictionary().AddKey("FirstChar", PdfVariant(static_cast<int64_t>(m_Encoding->GetFirstChar().Code)));
     this->GetObject().GetDictionary().AddKey("LastChar", PdfVariant(static_cast<int64_t>(m_Encoding->GetLastChar().Code)));
 
@@ -107,8 +117,6 @@ void PdfFontSimple::embedFont()
         GetBoundingBox(arr);
         GetObject().GetDictionary().AddKey("FontBBox", std::move(arr));
     }
-
-    EmbedFontFile(*m_Descriptor);
 }
 
 void PdfFontSimple::initImported()
diff --git a/src/pdfmm/base/PdfFontSimple.h b/src/pdfmm/base/PdfFontSimple.h
index 1368bd3..3f8a114 100644
--- a/src/pdfmm/base/PdfFontSimple.h
+++ b/src/pdfmm/base/PdfFontSimple.h
@@ -38,6 +38,7 @@ protected:
 protected:
     void Init();
 
+    void exportMetrics() override final;
     void embedFont() override final;
 
     void initImported() override;
-- 
2.43.0


From 2674a97c3bf9d53a9d80dcf2e950f9236bdbe5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 53/66] fix: widths, default widths, glyph maps and angles of
 font metrics

---
 src/pdfmm/base/PdfCIDToGIDMap.cpp            |  4 +-
 src/pdfmm/base/PdfFontFactory.cpp            |  2 +-
 src/pdfmm/base/PdfFontMetricsFreetype.cpp    |  2 +-
 src/pdfmm/base/PdfFontMetricsObject.cpp      | 80 +++++++++++---------
 src/pdfmm/base/PdfFontMetricsStandard14.cpp  |  7 +-
 src/pdfmm/private/PdfDeclarationsPrivate.cpp |  8 +-
 src/pdfmm/private/PdfStandard14FontData.cpp  |  8 +-
 7 files changed, 62 insertions(+), 49 deletions(-)

diff --git a/src/pdfmm/base/PdfCIDToGIDMap.cpp b/src/pdfmm/base/PdfCIDToGIDMap.cpp
index 61cf87b..2a55f86 100644
--- a/src/pdfmm/base/PdfCIDToGIDMap.cpp
+++ b/src/pdfmm/base/PdfCIDToGIDMap.cpp
@@ -25,7 +25,7 @@ PdfCIDToGIDMap PdfCIDToGIDMap::Create(const PdfObject& cidToGidMapObj, PdfGlyphA
     auto buffer = cidToGidMapObj.MustGetStream().GetCopy();
     for (unsigned i = 0, count = (unsigned)buffer.size() / 2; i < count; i++)
     {
-        unsigned gid = (unsigned)buffer[i * 2 + 0] << 8 | (unsigned)buffer[i * 2 + 1];
+        unsigned gid = (unsigned)(unsigned char)buffer[i * 2 + 0] << 8 | (unsigned)(unsigned char)buffer[i * 2 + 1];
         map[i] = gid;
     }
 
@@ -65,7 +65,7 @@ void PdfCIDToGIDMap::ExportTo(PdfObject& descendantFont)
 
         utls::WriteUInt16BE(entry.data(), (uint16_t)pair.second);
         output.Write(entry.data(), 2);
-        previousCid = cid;
+        previousCid = cid + 1;
     }
 }
 
diff --git a/src/pdfmm/base/PdfFontFactory.cpp b/src/pdfmm/base/PdfFontFactory.cpp
index 3c4577c..d12b51e 100644
--- a/src/pdfmm/base/PdfFontFactory.cpp
+++ b/src/pdfmm/base/PdfFontFactory.cpp
@@ -102,7 +102,7 @@ bool PdfFont::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfFont>& font)
         PdfObject* objDescriptor = nullptr;
         if (descendants.size() != 0)
         {
-            objFont = descendants.FindAt(0);
+            objFont = &descendants.MustFindAt(0);
             objDescriptor = objFont->GetDictionary().FindKey("FontDescriptor");
         }
 
diff --git a/src/pdfmm/base/PdfFontMetricsFreetype.cpp b/src/pdfmm/base/PdfFontMetricsFreetype.cpp
index 09621dd..cece5f1 100644
--- a/src/pdfmm/base/PdfFontMetricsFreetype.cpp
+++ b/src/pdfmm/base/PdfFontMetricsFreetype.cpp
@@ -196,7 +196,7 @@ void PdfFontMetricsFreetype::initFromFace(const PdfFontMetrics* refMetrics)
     TT_Postscript* psTable = static_cast<TT_Postscript*>(FT_Get_Sfnt_Table(m_Face.get(), FT_SFNT_POST));
     if (psTable != nullptr)
     {
-        m_ItalicAngle = (double)psTable->italicAngle;
+        m_ItalicAngle = psTable->italicAngle / 65536.0; // NOTE: It's a 16.16 fixed point number
         if (psTable->isFixedPitch != 0)
             m_Flags |= PdfFontDescriptorFlags::FixedPitch;
     }
diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 75f7df3..db1eb23 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -58,7 +58,19 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             m_FontFileType = PdfFontFileType::Type3;
         }
 
-        if (descriptor == nullptr && m_FontFileType == PdfFontFileType::Type3)
+        // Type3 fonts have a custom /FontMatrix
+        const PdfObject* fontmatrix = nullptr;
+        if (m_FontFileType == PdfFontFileType::Type3 && (fontmatrix = font.GetDictionary().FindKey("FontMatrix")) != nullptr)
+        {
+            auto& fontmatrixArr = fontmatrix->GetArray();
+            for (int i = 0; i < 6; i++)
+                m_Matrix[i] = fontmatrixArr.MustFindAt(i).GetReal();
+        }
+
+        if (descriptor == nullptr && m_FontFileType != PdfFontFileType::Type3)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoObject, "Missing descriptor for the font");
+
+        if (descriptor == nullptr)
         {
             const PdfObject* obj;
             if (m_FontName.length() == 0 && (obj = font.GetDictionary().FindKey("Name")) != nullptr)
@@ -109,16 +121,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
                 }
             }
 
-            m_DefaultWidth = descriptor->GetDictionary().FindKeyAs<double>("MissingWidth", 0);
-        }
-
-        // Type3 fonts have a custom /FontMatrix
-        const PdfObject* fontmatrix = nullptr;
-        if (m_FontFileType == PdfFontFileType::Type3 && (fontmatrix = font.GetDictionary().FindKey("FontMatrix")) != nullptr)
-        {
-            auto& fontmatrixArr = fontmatrix->GetArray();
-            for (int i = 0; i < 6; i++)
-                m_Matrix[i] = fontmatrixArr[i].GetReal();
+            m_DefaultWidth = descriptor->GetDictionary().FindKeyAs<double>("MissingWidth", 0) * m_Matrix[0];
         }
 
         auto widths = font.GetDictionary().FindKey("Widths");
@@ -126,8 +129,8 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         {
             auto& arrWidths = widths->GetArray();
             m_Widths.reserve(arrWidths.size());
-            for (auto& obj : arrWidths)
-                m_Widths.push_back(obj.GetReal() * m_Matrix[0]);
+            for (unsigned i = 0; i < arrWidths.size(); i++)
+                m_Widths.push_back(arrWidths.MustFindAt(i).GetReal() * m_Matrix[0]);
         }
     }
     else if (subType == "CIDFontType0" || subType == "CIDFontType2")
@@ -157,7 +160,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             if ((cidToGidMapObj = font.GetDictionary().FindKey("CIDToGIDMap")) != nullptr
                 && (stream = cidToGidMapObj->GetStream()) != nullptr)
             {
-                m_CIDToGIDMap.reset(new PdfCIDToGIDMap(PdfCIDToGIDMap::Create(*cidToGidMapObj, PdfGlyphAccess::Width | PdfGlyphAccess::FontProgram)));
+                m_CIDToGIDMap.reset(new PdfCIDToGIDMap(PdfCIDToGIDMap::Create(*cidToGidMapObj, PdfGlyphAccess::FontProgram)));
             }
         }
 
@@ -194,39 +197,44 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         {
             // "W" array format is described in Pdf 32000:2008 "9.7.4.3
             // Glyph Metrics in CIDFonts"
-            PdfArray widthsArr = widths->GetArray();
+            // NOTE: CIDs are not bigger than 65535
+            constexpr int64_t MAX_CID = 65535;
+            auto getCID = [](const PdfObject& cidObj)
+            {
+                int64_t cid = cidObj.GetNumberLenient();
+                if (cid < 0 || cid > MAX_CID)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid CID in the font widths");
+
+                return (unsigned)cid;
+            };
+
+            auto& widthsArr = widths->GetArray();
             unsigned pos = 0;
             while (pos < widthsArr.GetSize())
             {
-                unsigned start = (unsigned)widthsArr[pos++].GetNumberLenient();
-                PdfObject* second = &widthsArr[pos];
-                if (second->IsReference())
-                {
-                    // second do not have an associated owner; use the one in pw
-                    second = &widths->GetDocument()->GetObjects().MustGetObject(second->GetReference());
-                    PDFMM_ASSERT(!second->IsNull());
-                }
-                if (second->IsArray())
+                unsigned start = getCID(widthsArr.MustFindAt(pos++));
+                auto& second = widthsArr.MustFindAt(pos++);
+                if (second.IsArray())
                 {
-                    PdfArray arr = second->GetArray();
-                    pos++;
+                    auto& arr = second.GetArray();
                     unsigned length = start + arr.GetSize();
-                    PDFMM_ASSERT(length >= start);
+                    if (length > (unsigned)MAX_CID + 1)
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid CID in the font widths");
+
                     if (length > m_Widths.size())
                         m_Widths.resize(length, m_DefaultWidth);
 
                     for (unsigned i = 0; i < arr.GetSize(); i++)
-                        m_Widths[start + i] = arr[i].GetReal() * m_Matrix[0];
+                        m_Widths[start + i] = arr.MustFindAt(i).GetReal() * m_Matrix[0];
                 }
                 else
                 {
-                    unsigned end = (unsigned)widthsArr[pos++].GetNumberLenient();
+                    unsigned end = getCID(second);
                     unsigned length = end + 1;
-                    PDFMM_ASSERT(length >= start);
                     if (length > m_Widths.size())
                         m_Widths.resize(length, m_DefaultWidth);
 
-                    double width = widthsArr[pos++].GetReal() * m_Matrix[0];
+                    double width = widthsArr.MustFindAt(pos++).GetReal() * m_Matrix[0];
                     for (unsigned i = start; i <= end; i++)
                         m_Widths[i] = width;
                 }
@@ -286,7 +294,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             if (stretchObj->TryGetName(name))
                 m_FontStretch = stretchFromString(name->GetString());
             else if (stretchObj->TryGetString(str))
-                m_FontStretch = stretchFromString(name->GetString());
+                m_FontStretch = stretchFromString(str->GetString());
             else
                 m_FontStretch = PdfFontStretch::Unknown;
         }
@@ -529,10 +537,10 @@ vector<double> PdfFontMetricsObject::getBBox(const PdfObject& obj)
     vector<double> ret;
     ret.reserve(4);
     auto& arr = obj.GetArray();
-    ret.push_back(arr[0].GetNumberLenient() * m_Matrix[0]);
-    ret.push_back(arr[1].GetNumberLenient() * m_Matrix[3]);
-    ret.push_back(arr[2].GetNumberLenient() * m_Matrix[0]);
-    ret.push_back(arr[3].GetNumberLenient() * m_Matrix[3]);
+    ret.push_back(arr.MustFindAt(0).GetReal() * m_Matrix[0]);
+    ret.push_back(arr.MustFindAt(1).GetReal() * m_Matrix[3]);
+    ret.push_back(arr.MustFindAt(2).GetReal() * m_Matrix[0]);
+    ret.push_back(arr.MustFindAt(3).GetReal() * m_Matrix[3]);
     return ret;
 }
 
diff --git a/src/pdfmm/base/PdfFontMetricsStandard14.cpp b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
index cb9ffd4..adc7631 100644
--- a/src/pdfmm/base/PdfFontMetricsStandard14.cpp
+++ b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
@@ -59,9 +59,10 @@ unique_ptr<PdfFontMetricsStandard14> PdfFontMetricsStandard14::create(
         if (widthsObj != nullptr)
         {
             auto& arrWidths = widthsObj->GetArray();
-            parsedWidths.reset(new vector<double>(arrWidths.size()));
-            for (auto& obj : arrWidths)
-                parsedWidths->push_back(obj.GetReal());
+            parsedWidths.reset(new vector<double>());
+            parsedWidths->reserve(arrWidths.size());
+            for (unsigned i = 0; i < arrWidths.size(); i++)
+                parsedWidths->push_back(arrWidths.FindAt(i)->GetReal() / 1000.0); // Convert to PDF units
         }
     }
 
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index de09995..04f0adc 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1064,12 +1064,16 @@ string utls::GetWin32ErrorMessage(unsigned rc)
 
 unsigned char utls::GetCharCodeSize(unsigned code)
 {
-    return (unsigned char)(std::log(code) / std::log(256)) + 1;
+    unsigned char ret = 1;
+    while ((code >>= CHAR_BIT) != 0)
+        ret++;
+
+    return ret;
 }
 
 unsigned utls::GetCharCodeMaxValue(unsigned char codeSize)
 {
-    return (unsigned)(std::pow(2, codeSize * CHAR_BIT)) - 1;
+    return (unsigned)(((uint64_t)1 << codeSize * CHAR_BIT) - 1);
 }
 
 void utls::WriteUInt32BE(OutputStream& output, uint32_t value)
diff --git a/src/pdfmm/private/PdfStandard14FontData.cpp b/src/pdfmm/private/PdfStandard14FontData.cpp
index 74da268..6356e19 100644
--- a/src/pdfmm/private/PdfStandard14FontData.cpp
+++ b/src/pdfmm/private/PdfStandard14FontData.cpp
@@ -7167,7 +7167,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif,
             1000,
             PdfFontStretch::Normal,
@@ -7185,7 +7185,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER_OBLIQUE,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER_OBLIQUE),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif | PdfFontDescriptorFlags::Italic,
             1000,
             PdfFontStretch::Normal,
@@ -7203,7 +7203,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER_BOLD,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER_BOLD),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif,
             1000,
             PdfFontStretch::Normal,
@@ -7221,7 +7221,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER_BOLD_OBLIQUE,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER_BOLD_OBLIQUE),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif | PdfFontDescriptorFlags::Italic,
             1000,
             PdfFontStretch::Normal,
-- 
2.43.0


From cdee04b14e4a32ff1eff31a5e30f5e926915655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:32 +0000
Subject: [PATCH 54/66] fix: content reader: image ends, unfinished images,
 malformed tokens and warnings, forms without /Type

---
 src/pdfmm/base/PdfContentsReader.cpp      | 50 ++++++++++++++++++-----
 src/pdfmm/base/PdfContentsReader.h        |  2 +-
 src/pdfmm/base/PdfPostScriptTokenizer.cpp | 24 ++++++++++-
 src/pdfmm/base/PdfXObject.cpp             |  6 +--
 4 files changed, 67 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 7e7b2c0..d85b9c0 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -52,11 +52,14 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
         {
             if (m_args.InlineImageHandler == nullptr)
             {
+                m_readingInlineImgData = false;
                 if (!tryReadInlineImgData(content.InlineImageData))
+                {
+                    content.Warnings |= PdfContentWarnings::MissingEndImage;
                     goto PopDevice;
+                }
 
                 content.Type = PdfContentType::ImageData;
-                m_readingInlineImgData = false;
                 afterReadClear(content);
                 return true;
             }
@@ -64,17 +67,18 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
             {
                 bool eof = !m_args.InlineImageHandler(content.InlineImageDictionary, *m_inputs.back().Device);
                 m_readingInlineImgData = false;
+                content.InlineImageDictionary.Clear();
 
                 // Try to consume the EI end image operator
                 if (eof || !tryReadNextContent(content))
                 {
-                    content.Warnings = PdfContentWarnings::MissingEndImage;
+                    content.Warnings |= PdfContentWarnings::MissingEndImage;
                     goto PopDevice;
                 }
 
-                if (content.Operator != PdfOperator::EI)
+                if (content.Type != PdfContentType::Operator || content.Operator != PdfOperator::EI)
                 {
-                    content.Warnings = PdfContentWarnings::MissingEndImage;
+                    content.Warnings |= PdfContentWarnings::MissingEndImage;
                     goto HandleContent;
                 }
 
@@ -87,7 +91,7 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
 
     HandleContent:
         afterReadClear(content);
-        handleWarnings();
+        handleWarnings(content);
         return true;
 
     PopDevice:
@@ -280,7 +284,10 @@ bool PdfContentsReader::tryReadInlineImgDict(PdfContent& content)
     while (true)
     {
         if (!m_tokenizer.TryReadNext(*m_inputs.back().Device, m_temp.PsType, m_temp.Keyword, m_temp.Variant))
+        {
+            content.Warnings |= PdfContentWarnings::InvalidImageDictionaryContent;
             return false;
+        }
 
         switch (m_temp.PsType)
         {
@@ -308,10 +315,23 @@ bool PdfContentsReader::tryReadInlineImgDict(PdfContent& content)
             }
         }
 
-        if (m_tokenizer.TryReadNextVariant(*m_inputs.back().Device, m_temp.Variant))
+        if (!m_tokenizer.TryReadNext(*m_inputs.back().Device, m_temp.PsType, m_temp.Keyword, m_temp.Variant))
+        {
+            content.Warnings |= PdfContentWarnings::InvalidImageDictionaryContent;
+            return false;
+        }
+
+        if (m_temp.PsType == PdfPostScriptTokenType::Variant)
+        {
             content.InlineImageDictionary.AddKey(m_temp.Name, std::move(m_temp.Variant));
+        }
         else
-            return false;
+        {
+            // The key has no value
+            content.Warnings |= PdfContentWarnings::InvalidImageDictionaryContent;
+            if (m_temp.PsType == PdfPostScriptTokenType::Keyword && m_temp.Keyword == "ID")
+                return true;
+        }
     }
 }
 
@@ -391,7 +411,7 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
             {
                 if (ch == 'I')
                     status = ReadEIStatus::ReadWhiteSpace;
-                else
+                else if (ch != 'E')
                     status = ReadEIStatus::ReadE;
 
                 break;
@@ -403,6 +423,8 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
                     data = bufferview(m_buffer->data(), readCount - 2);
                     return true;
                 }
+                else if (ch == 'E')
+                    status = ReadEIStatus::ReadI;
                 else
                     status = ReadEIStatus::ReadE;
 
@@ -420,12 +442,20 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
         readCount++;
     }
 
+    // The content can also end just after "EI"
+    if (status == ReadEIStatus::ReadWhiteSpace)
+    {
+        data = bufferview(m_buffer->data(), readCount - 2);
+        return true;
+    }
+
     return false;
 }
 
-void PdfContentsReader::handleWarnings()
+void PdfContentsReader::handleWarnings(const PdfContent& content)
 {
-    if ((m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
+    if (content.Warnings != PdfContentWarnings::None
+        && (m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidContentStream, "Unsupported PostScript content");
 }
 
diff --git a/src/pdfmm/base/PdfContentsReader.h b/src/pdfmm/base/PdfContentsReader.h
index e549c37..fdd55ad 100644
--- a/src/pdfmm/base/PdfContentsReader.h
+++ b/src/pdfmm/base/PdfContentsReader.h
@@ -105,7 +105,7 @@ private:
 
     void tryFollowXObject(PdfContent& content);
 
-    void handleWarnings();
+    void handleWarnings(const PdfContent& content);
 
     bool isCalledRecursively(const PdfObject* xobj);
 
diff --git a/src/pdfmm/base/PdfPostScriptTokenizer.cpp b/src/pdfmm/base/PdfPostScriptTokenizer.cpp
index cd3b41e..92f2e82 100644
--- a/src/pdfmm/base/PdfPostScriptTokenizer.cpp
+++ b/src/pdfmm/base/PdfPostScriptTokenizer.cpp
@@ -48,12 +48,34 @@ bool PdfPostScriptTokenizer::TryReadNext(InputStreamDevice& device, PdfPostScrip
         case PdfTokenType::BraceRight:
             psTokenType = PdfPostScriptTokenType::ProcedureExit;
             return true;
+        case PdfTokenType::ParenthesisRight:
+        case PdfTokenType::AngleBracketRight:
+        case PdfTokenType::SquareBracketRight:
+        case PdfTokenType::DoubleAngleBracketsRight:
+            // A stray closing delimiter: report it as an unknown keyword
+            keyword = token;
+            psTokenType = PdfPostScriptTokenType::Keyword;
+            return true;
         default:
             // Continue evaluating data type
             break;
     }
 
-    PdfLiteralDataType dataType = DetermineDataType(device, token, tokenType, variant);
+    PdfLiteralDataType dataType;
+    try
+    {
+        dataType = DetermineDataType(device, token, tokenType, variant);
+    }
+    catch (const PdfError& err)
+    {
+        if (err.GetError() != PdfErrorCode::NoNumber)
+            throw;
+
+        // A malformed number, which was not consumed:
+        // consume it and report it as an unknown keyword
+        (void)PdfTokenizer::TryReadNextToken(device, token, tokenType);
+        dataType = PdfLiteralDataType::Unknown;
+    }
 
     // asume we read a variant unless we discover otherwise later.
     psTokenType = PdfPostScriptTokenType::Variant;
diff --git a/src/pdfmm/base/PdfXObject.cpp b/src/pdfmm/base/PdfXObject.cpp
index 120fa1d..b2a52b7 100644
--- a/src/pdfmm/base/PdfXObject.cpp
+++ b/src/pdfmm/base/PdfXObject.cpp
@@ -67,10 +67,10 @@ bool PdfXObject::tryCreateFromObject(const PdfObject& obj, PdfXObjectType xobjTy
     const PdfDictionary* dict;
     const PdfObject* typeObj;
     const PdfName* name;
+    // NOTE: The /Type key is optional
     if (!obj.TryGetDictionary(dict)
-        || (typeObj = dict->GetKey(PdfName::KeyType)) == nullptr
-        || !typeObj->TryGetName(name)
-        || name->GetString() != "XObject")
+        || ((typeObj = dict->FindKey(PdfName::KeyType)) != nullptr
+            && (!typeObj->TryGetName(name) || name->GetString() != "XObject")))
     {
         xobj = nullptr;
         return false;
-- 
2.43.0


From c4881eba47271259427ff223f4dc444da0fc2c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:23 +0000
Subject: [PATCH 55/66] fix: embed fonts before collecting garbage

---
 src/pdfmm/base/PdfMemDocument.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index ac85431..725157f 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -313,13 +313,15 @@ void PdfMemDocument::beforeWrite(PdfSaveOptions opts)
         GetMetadata().SetModifyDate(PdfDate::LocalNow(), true);
     }
 
+    // NOTE: Fonts must be embedded first, since garbage
+    // collection frees the objects of fonts that are not used
+    GetFonts().EmbedFonts();
+
     if ((opts & PdfSaveOptions::NoCollectGarbage) ==
         PdfSaveOptions::None)
     {
         CollectGarbage();
     }
-
-    GetFonts().EmbedFonts();
 }
 
 void PdfMemDocument::SetEncrypted(const string_view& userPassword, const string_view& ownerPassword,
-- 
2.43.0


From 6cb00ec3e5ec3b071e708ab8db9879f46fedd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:23 +0000
Subject: [PATCH 56/66] fix: line width and cap defaults, colour space resource
 names

---
 src/pdfmm/base/PdfGraphicsState.cpp | 4 ++--
 src/pdfmm/base/PdfResources.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfGraphicsState.cpp b/src/pdfmm/base/PdfGraphicsState.cpp
index 4bbb717..8c3d85b 100644
--- a/src/pdfmm/base/PdfGraphicsState.cpp
+++ b/src/pdfmm/base/PdfGraphicsState.cpp
@@ -10,9 +10,9 @@ using namespace std;
 using namespace mm;
 
 PdfGraphicsState::PdfGraphicsState() :
-    LineWidth(0),
+    LineWidth(1),
     MiterLimit(10),
-    LineCapStyle(PdfLineCapStyle::Square),
+    LineCapStyle(PdfLineCapStyle::Butt),
     LineJoinStyle(PdfLineJoinStyle::Miter)
 {
 }
diff --git a/src/pdfmm/base/PdfResources.cpp b/src/pdfmm/base/PdfResources.cpp
index ba6051f..693dce5 100644
--- a/src/pdfmm/base/PdfResources.cpp
+++ b/src/pdfmm/base/PdfResources.cpp
@@ -102,7 +102,7 @@ void PdfResources::AddColorResource(const PdfColor& color)
         case PdfColorSpace::Lab:
         {
             if (!GetDictionary().HasKey("ColorSpace")
-                || !GetDictionary().MustFindKey("ColorSpace").GetDictionary().HasKey("ColorSpaceLab"))
+                || !GetDictionary().MustFindKey("ColorSpace").GetDictionary().HasKey("ColorSpaceCieLab"))
             {
                 // Build color-spaces for CIE-lab
                 auto csp = color.BuildColorSpace(GetDocument());
-- 
2.43.0


From 3755ab3b7d9bebbfe2c8586289be8324a3c0f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:23 +0000
Subject: [PATCH 57/66] fix: painter state, text modes, resources, SVG paths,
 arcs and forms

---
 src/pdfmm/base/PdfPainter.cpp | 289 ++++++++++++++++++----------------
 src/pdfmm/base/PdfPainter.h   |  34 ++--
 2 files changed, 180 insertions(+), 143 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7c6df66..1e3ffd3 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -57,16 +57,14 @@ PdfPainter::PdfPainter(PdfPainterFlags flags) :
     m_PainterTextState(*this, m_TextState),
     m_TabWidth(4),
     m_isTextOpen(false),
-    m_lpx(0),
-    m_lpy(0),
-    m_lpx2(0),
-    m_lpy2(0),
-    m_lpx3(0),
-    m_lpy3(0),
+    m_lsx(0),
+    m_lsy(0),
     m_lcx(0),
     m_lcy(0),
     m_lrx(0),
-    m_lry(0)
+    m_lry(0),
+    m_lqx(0),
+    m_lqy(0)
 {
 }
 
@@ -95,6 +93,7 @@ void PdfPainter::SetCanvas(PdfCanvas& canvas)
 
     m_canvas = &canvas;
     m_stream = nullptr;
+    resetState();
 }
 
 void PdfPainter::FinishDrawing()
@@ -108,11 +107,23 @@ void PdfPainter::FinishDrawing()
         // clean up, even in case of error
         m_stream = nullptr;
         m_canvas = nullptr;
+        resetState();
         throw e;
     }
 
     m_stream = nullptr;
     m_canvas = nullptr;
+    resetState();
+}
+
+void PdfPainter::resetState()
+{
+    // Every drawing session starts with the default graphics state,
+    // while the text state is written again when text is drawn
+    m_GraphicsState = PdfGraphicsState();
+    m_WrittenTextState = PdfTextState();
+    m_SavedStates.clear();
+    m_isTextOpen = false;
 }
 
 void PdfPainter::finishDrawing()
@@ -129,7 +140,7 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream();
+                output = m_stream->GetOutputStream(true);
                 // there is already content here - so let's assume we are appending
                 // as such, we MUST put in a "space" to separate whatever we do.
                 output.Write("\n");
@@ -147,10 +158,10 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream(true);
+                output = m_stream->GetOutputStream();
                 output.Write("q\n");
                 output.Write(buffer);
-                output.Write("Q\n");
+                output.Write("\nQ\n");
             }
         }
 
@@ -173,41 +184,41 @@ void PdfPainter::finishDrawing()
 void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern CS /" << name.GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern cs /" << name.GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern CS /" << name.GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
 {
     checkStream();
-    m_tmpStream << "/Pattern CS /" << patternName << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << PdfName(patternName).GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
-    this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    auto name = this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
+    m_tmpStream << "/Pattern cs /" << name.GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const string_view& patternName)
 {
     checkStream();
-    m_tmpStream << "/Pattern cs /" << patternName << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << PdfName(patternName).GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokeStyle(PdfStrokeStyle strokeStyle, const string_view& custom, bool inverted, double scale, bool subtractJoinCap)
@@ -365,7 +376,7 @@ void PdfPainter::Rectangle(double x, double y, double width, double height,
     double roundX, double roundY)
 {
     checkStream();
-    if (static_cast<int>(roundX) || static_cast<int>(roundY))
+    if (roundX != 0 || roundY != 0)
     {
         double w = width, h = height,
             rx = roundX, ry = roundY;
@@ -388,6 +399,7 @@ void PdfPainter::Rectangle(double x, double y, double width, double height,
             << width << " "
             << height
             << " re" << endl;
+        setSubpathStart(x, y);
     }
 }
 
@@ -414,6 +426,8 @@ void PdfPainter::Ellipse(double x, double y, double width, double height)
             << dPointY[i + 2]
             << " c" << endl;
     }
+
+    setSubpathStart(dPointX[0], dPointY[0]);
 }
 
 void PdfPainter::Circle(double x, double y, double radius)
@@ -493,6 +507,7 @@ void PdfPainter::BeginText(double x, double y)
     checkTextModeClosed();
 
     m_tmpStream << "BT" << endl;
+    writeTextState();
     m_tmpStream << x << " " << y << " Td" << endl;
     m_isTextOpen = true;
 }
@@ -544,10 +559,17 @@ void PdfPainter::DrawMultiLineText(const string_view& str, double x, double y, d
     if (width <= 0.0 || height <= 0.0) // nonsense arguments
         return;
 
+    // NOTE: The graphics state can't be saved and the
+    // clipping path can't be set inside a text object
+    this->Save();
+    if (clip)
+        this->SetClipRect(x, y, width, height);
+
     m_tmpStream << "BT" << endl;
     writeTextState();
-    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, clip, skipSpaces);
+    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, skipSpaces);
     m_tmpStream << "ET" << endl;
+    this->Restore();
 }
 
 void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment)
@@ -565,14 +587,10 @@ void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, dou
     m_tmpStream << "ET" << endl;
 }
 
-void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces)
+void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces)
 {
     auto& font = *m_TextState.Font;
 
-    this->Save();
-    if (clip)
-        this->SetClipRect(x, y, width, height);
-
     auto expanded = this->expandTabs(str);
 
     vector<string> lines = getMultiLineTextAsLines(expanded, width, skipSpaces);
@@ -602,7 +620,6 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
         y -= font.GetLineSpacing(m_TextState);
         it++;
     }
-    this->Restore();
 }
 
 // FIX-ME/CLEAN-ME: The following was found
@@ -802,22 +819,21 @@ void PdfPainter::DrawXObject(const PdfXObject& obj, double x, double y, double s
 {
     checkStream();
 
-    // use OriginalReference() as the XObject might have been written to disk
-    // already and is not in memory anymore in this case.
-    this->addToPageResources("XObject", obj.GetIdentifier(), obj.GetObject());
+    auto name = this->addToPageResources("XObject", obj.GetIdentifier(), obj.GetObject());
 
     m_tmpStream << "q" << endl
         << scaleX << " 0 0 "
         << scaleY << " "
         << x << " "
         << y << " cm" << endl
-        << "/" << obj.GetIdentifier().GetString() << " Do" << endl << "Q" << endl;
+        << "/" << name.GetEscapedName() << " Do" << endl << "Q" << endl;
 }
 
 void PdfPainter::ClosePath()
 {
     checkStream();
     m_tmpStream << "h" << endl;
+    setCurrentPoint(m_lsx, m_lsy);
 }
 
 void PdfPainter::LineTo(double x, double y)
@@ -826,6 +842,7 @@ void PdfPainter::LineTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " l" << endl;
+    setCurrentPoint(x, y);
 }
 
 void PdfPainter::MoveTo(double x, double y)
@@ -834,6 +851,7 @@ void PdfPainter::MoveTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " m" << endl;
+    setSubpathStart(x, y);
 }
 
 void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, double x3, double y3)
@@ -846,96 +864,73 @@ void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, doubl
         << x3 << " "
         << y3
         << " c" << endl;
+    setCurrentPoint(x3, y3);
+    m_lrx = x2;
+    m_lry = y2;
 }
 
 void PdfPainter::HorizontalLineTo(double x)
 {
-    LineTo(x, m_lpy3);
+    LineTo(x, m_lcy);
 }
 
 void PdfPainter::VerticalLineTo(double y)
 {
-    LineTo(m_lpx3, y);
+    LineTo(m_lcx, y);
 }
 
 void PdfPainter::SmoothCurveTo(double x2, double y2, double x3, double y3)
 {
-    double px, py, px2 = x2;
-    double py2 = y2;
-    double px3 = x3;
-    double py3 = y3;
-
-    // compute the reflective points (thanks Raph!)
-    px = 2 * m_lcx - m_lrx;
-    py = 2 * m_lcy - m_lry;
-
-    m_lpx = px;
-    m_lpy = py;
-    m_lpx2 = px2;
-    m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
-
-    CubicBezierTo(px, py, px2, py2, px3, py3);
+    // The first control point is the reflection of the previous one
+    CubicBezierTo(2 * m_lcx - m_lrx, 2 * m_lcy - m_lry, x2, y2, x3, y3);
 }
 
 void PdfPainter::QuadCurveTo(double x1, double y1, double x3, double y3)
 {
-    double px = x1, py = y1,
-        px2, py2,
-        px3 = x3, py3 = y3;
-
-    // raise quadratic bezier to cubic - thanks Raph!
-    // http://www.icce.rug.nl/erikjan/bluefuzz/beziers/beziers/beziers.html
-    px = (m_lcx + 2 * px) * (1.0 / 3.0);
-    py = (m_lcy + 2 * py) * (1.0 / 3.0);
-    px2 = (px3 + 2 * px) * (1.0 / 3.0);
-    py2 = (py3 + 2 * py) * (1.0 / 3.0);
-
-    m_lpx = px;
-    m_lpy = py;
-    m_lpx2 = px2;
-    m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
-
-    CubicBezierTo(px, py, px2, py2, px3, py3);
+    // raise quadratic bezier to cubic
+    CubicBezierTo(
+        (m_lcx + 2 * x1) / 3, (m_lcy + 2 * y1) / 3,
+        (x3 + 2 * x1) / 3, (y3 + 2 * y1) / 3,
+        x3, y3);
+    setCurrentPoint(x3, y3);
+    m_lqx = x1;
+    m_lqy = y1;
 }
 
 void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
 {
-    double px, py, px2, py2,
-        px3 = x3, py3 = y3;
-
-    double xc, yc; // quadratic control point
-    xc = 2 * m_lcx - m_lrx;
-    yc = 2 * m_lcy - m_lry;
-
-    // generate a quadratic bezier with control point = xc, yc
-    px = (m_lcx + 2 * xc) * (1.0 / 3.0);
-    py = (m_lcy + 2 * yc) * (1.0 / 3.0);
-    px2 = (px3 + 2 * xc) * (1.0 / 3.0);
-    py2 = (py3 + 2 * yc) * (1.0 / 3.0);
+    // The control point is the reflection of the previous one
+    QuadCurveTo(2 * m_lcx - m_lqx, 2 * m_lcy - m_lqy, x3, y3);
+}
 
-    m_lpx = px; m_lpy = py; m_lpx2 = px2; m_lpy2 = py2; m_lpx3 = px3; m_lpy3 = py3;
-    m_lcx = px3;    m_lcy = py3;    m_lrx = xc;    m_lry = yc;    // thanks Raph!
+void PdfPainter::setCurrentPoint(double x, double y)
+{
+    m_lcx = m_lrx = m_lqx = x;
+    m_lcy = m_lry = m_lqy = y;
+}
 
-    CubicBezierTo(px, py, px2, py2, px3, py3);
+void PdfPainter::setSubpathStart(double x, double y)
+{
+    m_lsx = x;
+    m_lsy = y;
+    setCurrentPoint(x, y);
 }
 
 void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
     double rotation, bool large, bool sweep)
 {
     double px = x, py = y;
-    double rx = radiusX, ry = radiusY, rot = rotation;
+    double rx = abs(radiusX), ry = abs(radiusY), rot = rotation;
+
+    // Degenerate arcs
+    if (px == m_lcx && py == m_lcy)
+        return;
+
+    if (rx == 0 || ry == 0)
+    {
+        LineTo(px, py);
+        return;
+    }
 
     double sin_th, cos_th;
     double a00, a01, a10, a11;
@@ -959,6 +954,19 @@ void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
 
     // The arc fits a unit-radius circle in this space.
     d = (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0);
+    if (d > 4)
+    {
+        // The radii are too small to reach
+        // the end point: scale them up
+        double scale = sqrt(d) / 2;
+        rx *= scale;
+        ry *= scale;
+        x0 /= scale;
+        y0 /= scale;
+        x1 /= scale;
+        y1 /= scale;
+        d = 4;
+    }
     sfactor_sq = 1.0 / d - 0.25;
     if (sfactor_sq < 0)
         sfactor_sq = 0;
@@ -1015,21 +1023,13 @@ void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
         ny3 = yc + sin(nth1);
         nx2 = nx3 + t * sin(nth1);
         ny2 = ny3 - t * cos(nth1);
-        nx1 = na00 * nx1 + na01 * ny1;
-        ny1 = na10 * nx1 + na11 * ny1;
-        nx2 = na00 * nx2 + na01 * ny2;
-        ny2 = na10 * nx2 + na11 * ny2;
-        nx3 = na00 * nx3 + na01 * ny3;
-        ny3 = na10 * nx3 + na11 * ny3;
-        CubicBezierTo(nx1, ny1, nx2, ny2, nx3, ny3);
+        CubicBezierTo(
+            na00 * nx1 + na01 * ny1, na10 * nx1 + na11 * ny1,
+            na00 * nx2 + na01 * ny2, na10 * nx2 + na11 * ny2,
+            na00 * nx3 + na01 * ny3, na10 * nx3 + na11 * ny3);
     }
 
-    m_lpx = m_lpx2 = m_lpx3 = px;
-    m_lpy = m_lpy2 = m_lpy3 = py;
-    m_lcx = px;
-    m_lcy = py;
-    m_lrx = px;
-    m_lry = py;
+    setCurrentPoint(px, py);
 }
 
 bool PdfPainter::Arc(double x, double y, double radius, double angle1, double angle2)
@@ -1107,21 +1107,12 @@ void PdfPainter::internalArc(double x, double y, double ray, double ang1,
 
     //attr->cur_pos.x = (HPDF_REAL)x3;
     //attr->cur_pos.y = (HPDF_REAL)y3;
-    m_lcx = x3;
-    m_lcy = y3;
-
-    m_lpx = m_lpx2 = m_lpx3 = x3;
-    m_lpy = m_lpy2 = m_lpy3 = y3;
-    m_lcx = x3;
-    m_lcy = y3;
-    m_lrx = x3;
-    m_lry = y3;
+    setCurrentPoint(x3, y3);
 }
 
 void PdfPainter::Close()
 {
-    checkStream();
-    m_tmpStream << "h" << endl;
+    ClosePath();
 }
 
 void PdfPainter::Stroke()
@@ -1167,12 +1158,19 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
+    m_SavedStates.push_back({ m_GraphicsState, m_WrittenTextState });
 }
 
 void PdfPainter::Restore()
 {
     checkStream();
     m_tmpStream << "Q" << endl;
+    if (m_SavedStates.size() != 0)
+    {
+        m_GraphicsState = m_SavedStates.back().first;
+        m_WrittenTextState = m_SavedStates.back().second;
+        m_SavedStates.pop_back();
+    }
 }
 
 
@@ -1189,8 +1187,8 @@ unsigned short PdfPainter::GetPrecision() const
 void PdfPainter::SetExtGState(const PdfExtGState& inGState)
 {
     checkStream();
-    this->addToPageResources("ExtGState", inGState.GetIdentifier(), inGState.GetObject());
-    m_tmpStream << "/" << inGState.GetIdentifier().GetString()
+    auto name = this->addToPageResources("ExtGState", inGState.GetIdentifier(), inGState.GetObject());
+    m_tmpStream << "/" << name.GetEscapedName()
         << " gs" << endl;
 }
 
@@ -1203,21 +1201,38 @@ void PdfPainter::Rectangle(const PdfRect& rect, double roundX, double roundY)
 
 void PdfPainter::BeginMarkedContext(const string_view& tag)
 {
-    m_tmpStream << '/' << tag << " BMC" << endl;
+    checkStream();
+    m_tmpStream << '/' << PdfName(tag).GetEscapedName() << " BMC" << endl;
 }
 
 void PdfPainter::EndMarkedContext()
 {
+    checkStream();
     m_tmpStream << "EMC" << endl;
 }
 
 
-void PdfPainter::addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj)
+PdfName PdfPainter::addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj)
 {
     if (m_canvas == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
-    m_canvas->GetOrCreateResources().AddResource(type, identifier, obj);
+    auto& resources = m_canvas->GetOrCreateResources();
+    PdfName name = identifier;
+    if (obj.IsIndirect())
+    {
+        // Existing content may use the same name for another resource
+        const PdfObject* existing;
+        unsigned suffix = 0;
+        while ((existing = resources.GetResource(type, name)) != nullptr && existing != &obj)
+        {
+            suffix++;
+            name = PdfName((string)identifier.GetString() + "_" + std::to_string(suffix));
+        }
+    }
+
+    resources.AddResource(type, name, obj);
+    return name;
 }
 
 void PdfPainter::convertRectToBezier(double x, double y, double width, double height, double pointsX[], double pointsY[])
@@ -1305,7 +1320,7 @@ void PdfPainter::SetLineJoinStyle(PdfLineJoinStyle style)
 void PdfPainter::SetRenderingIntent(const string_view& intent)
 {
     checkStream();
-    m_tmpStream << "/" << intent << " ri" << endl;
+    m_tmpStream << "/" << PdfName(intent).GetEscapedName() << " ri" << endl;
 }
 
 void PdfPainter::SetFillColor(const PdfColor& color)
@@ -1417,16 +1432,16 @@ void PdfPainter::writeTextState()
     if (m_TextState.Font != nullptr)
         setFont(m_TextState.Font, m_TextState.FontSize);
 
-    if (m_TextState.FontScale != 1)
+    if (m_TextState.FontScale != m_WrittenTextState.FontScale)
         setFontScale(m_TextState.FontScale);
 
-    if (m_TextState.CharSpacing != 0)
+    if (m_TextState.CharSpacing != m_WrittenTextState.CharSpacing)
         setCharSpacing(m_TextState.CharSpacing);
 
-    if (m_TextState.WordSpacing != 0)
+    if (m_TextState.WordSpacing != m_WrittenTextState.WordSpacing)
         setWordSpacing(m_TextState.WordSpacing);
 
-    if (m_TextState.RenderingMode != PdfTextRenderingMode::Fill)
+    if (m_TextState.RenderingMode != m_WrittenTextState.RenderingMode)
         setTextRenderingMode(m_TextState.RenderingMode);
 }
 
@@ -1435,7 +1450,6 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
     if (font == nullptr)
         return;
 
-    this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
     if (m_isTextOpen)
         setFont(font, fontSize);
 }
@@ -1443,7 +1457,8 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
 void PdfPainter::setFont(const PdfFont* font, double fontSize)
 {
     checkStream();
-    m_tmpStream << "/" << font->GetIdentifier().GetString()
+    auto name = this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
+    m_tmpStream << "/" << name.GetEscapedName()
         << " " << fontSize
         << " Tf" << endl;
 }
@@ -1458,6 +1473,7 @@ void PdfPainter::setFontScale(double value)
 {
     checkStream();
     m_tmpStream << value * 100 << " Tz" << endl;
+    m_WrittenTextState.FontScale = value;
 }
 
 void PdfPainter::SetCharSpacing(double value)
@@ -1470,6 +1486,7 @@ void PdfPainter::setCharSpacing(double value)
 {
     checkStream();
     m_tmpStream << value << " Tc" << endl;
+    m_WrittenTextState.CharSpacing = value;
 }
 
 void PdfPainter::SetWordSpacing(double value)
@@ -1482,6 +1499,7 @@ void PdfPainter::setWordSpacing(double value)
 {
     checkStream();
     m_tmpStream << value << " Tw" << endl;
+    m_WrittenTextState.WordSpacing = value;
 }
 
 void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
@@ -1493,7 +1511,12 @@ void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
 void PdfPainter::setTextRenderingMode(PdfTextRenderingMode value)
 {
     checkStream();
-    m_tmpStream << (int)value << " Tr" << endl;
+    if (value == PdfTextRenderingMode::Unknown)
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+
+    // The enumeration starts with the unknown mode
+    m_tmpStream << (int)value - 1 << " Tr" << endl;
+    m_WrittenTextState.RenderingMode = value;
 }
 
 string PdfPainter::expandTabs(const string_view& str) const
@@ -1554,8 +1577,8 @@ string expandTabs(const string_view& str, unsigned tabWidth, unsigned tabCount)
         char32_t ch = (char32_t)utf8::next(it, end);
         if (ch == U'\t')
             ret.append(tabWidth, ' ');
-
-        utf8::append(ch, ret);
+        else
+            utf8::append(ch, ret);
     }
 
     return ret;
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 12a969c..07f3ec4 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -713,14 +713,14 @@ private:
      *  \param name identifier of this object, e.g. /Ft0
      *  \param obj the object you want to register
      */
-    void addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj);
+    PdfName addToPageResources(const PdfName& type, const PdfName& identifier, const PdfObject& obj);
 
     void drawTextAligned(const std::string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment);
 
     void drawText(const std::string_view& str, double x, double y, bool isUnderline, bool isStrikeOut);
 
     void drawMultiLineText(const std::string_view& str, double x, double y, double width, double height,
-        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces);
+        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces);
 
     void internalArc(double x, double y, double ray, double ang1, double ang2, bool contFlg);
 
@@ -742,6 +742,12 @@ private:
     void checkTextModeClosed();
     void finishDrawing();
 
+    void resetState();
+
+    void setCurrentPoint(double x, double y);
+
+    void setSubpathStart(double x, double y);
+
 private:
     PdfPainterFlags m_flags;
 
@@ -761,6 +767,15 @@ private:
     PdfGraphicsStateWrapper m_PainterGraphicsState;
     PdfTextStateWrapper m_PainterTextState;
 
+    /** The text state that was written to the content stream,
+     *  except the font, which is always written
+     */
+    PdfTextState m_WrittenTextState;
+
+    /** The states to be recovered by Restore()
+     */
+    std::vector<std::pair<PdfGraphicsState, PdfTextState>> m_SavedStates;
+
     /** Every tab '\\t' is replaced with m_TabWidth
      *  spaces before drawing text. Default is a value of 4
      */
@@ -778,19 +793,18 @@ private:
     // Document the next fields accurately, possibly moving them
     // to a structure
 
-    // points for this operation
+    // start of the current subpath
+    double m_lsx;
+    double m_lsy;
     // last "current" point
-    // "reflect points"
-    double m_lpx;
-    double m_lpy;
-    double m_lpx2;
-    double m_lpy2;
-    double m_lpx3;
-    double m_lpy3;
     double m_lcx;
     double m_lcy;
+    // "reflect points" of the last cubic and quadratic
+    // curves, or the current point after other segments
     double m_lrx;
     double m_lry;
+    double m_lqx;
+    double m_lqy;
 };
 
 }
-- 
2.43.0


From c904083e93e3836554e893053eafba77395de440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:08 +0000
Subject: [PATCH 58/66] fix: images: decoding of gray, short and other-depth
 data, soft masks, decode arrays, fax and jpeg sizes; palettes, alpha and bit
 order of PNG; 16 bit, inverted and invalid TIFF; filters of raw data

---
 src/pdfmm/base/PdfImage.cpp        | 393 +++++++++++++++++------------
 src/pdfmm/base/PdfImage.h          |  12 +-
 src/pdfmm/base/PdfObjectStream.cpp |  23 ++
 src/pdfmm/base/PdfObjectStream.h   |   4 +
 src/pdfmm/private/ImageUtils.cpp   |  30 ++-
 src/pdfmm/private/ImageUtils.h     |   2 +-
 src/pdfmm/private/JpegCommon.cpp   |   2 +-
 7 files changed, 295 insertions(+), 171 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 138abe2..1918d7b 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -50,8 +50,8 @@ PdfImage::PdfImage(PdfDocument& doc, const string_view& prefix)
 
 void PdfImage::DecodeTo(charbuff& buffer, PdfPixelFormat format, int rowSize) const
 {
-    buffer.resize(getBufferSize(format));
-    SpanStreamDevice stream(buffer);
+    buffer.clear();
+    ContainerStreamDevice stream(buffer);
     DecodeTo(stream, format, rowSize);
 }
 
@@ -70,12 +70,33 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
     ContainerStreamDevice device(imageData);
     istream.CopyTo(device);
 
-    charbuff smaskData;
-    charbuff scanLine = initScanLine(format, rowSize, smaskData);
-
     if (mediaFilters.size() == 0)
     {
-        switch (GetColorSpace())
+        unsigned components;
+        auto colorSpace = GetColorSpace();
+        switch (colorSpace)
+        {
+            case PdfColorSpace::DeviceRGB:
+                components = 3;
+                break;
+            case PdfColorSpace::DeviceGray:
+                components = 1;
+                break;
+            default:
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+        }
+
+        if (GetDictionary().FindKeyAs<int64_t>("BitsPerComponent", 8) != 8)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported bits per component");
+
+        if (m_Width != 0 && imageData.size() / m_Width / components < m_Height)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image has less data than its size requires");
+
+        applyDecode(imageData, components);
+
+        charbuff smaskData;
+        charbuff scanLine = initScanLine(format, rowSize, smaskData);
+        switch (colorSpace)
         {
             case PdfColorSpace::DeviceRGB:
                 utls::FetchImageRGB(stream, m_Width, m_Height, format, (const unsigned char*)imageData.data(), smaskData, scanLine);
@@ -89,6 +110,8 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
     }
     else
     {
+        charbuff smaskData;
+        charbuff scanLine = initScanLine(format, rowSize, smaskData);
         switch (mediaFilters[0])
         {
             case PdfFilterType::DCTDecode:
@@ -96,8 +119,6 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
 #ifdef PDFMM_HAVE_JPEG_LIB
                 jpeg_decompress_struct ctx;
 
-                // Setup variables for JPEGLib
-                ctx.out_color_space = format == PdfPixelFormat::Grayscale ? JCS_GRAYSCALE : JCS_RGB;
                 JpegErrorHandler jerr;
                 try
                 {
@@ -108,6 +129,17 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
                     if (jpeg_read_header(&ctx, TRUE) <= 0)
                         PDFMM_RAISE_ERROR(PdfErrorCode::UnexpectedEOF);
 
+                    if (ctx.image_width != m_Width || ctx.image_height != m_Height)
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The jpeg has not the size of the image");
+
+                    bool inverted;
+                    if (!isDefaultDecode((unsigned)ctx.num_components, inverted))
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported decode array");
+
+                    // The color space requested must be set
+                    // after reading the header, that supplies defaults
+                    ctx.out_color_space = format == PdfPixelFormat::Grayscale
+                        || ctx.jpeg_color_space == JCS_GRAYSCALE ? JCS_GRAYSCALE : JCS_RGB;
                     jpeg_start_decompress(&ctx);
 
                     unsigned rowBytes = (unsigned)(ctx.output_width * ctx.output_components);
@@ -134,6 +166,10 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
                 bool endOfLine = false;
                 bool encodedByteAlign = false;
                 bool blackIs1 = false;
+                bool inverted;
+                if (!isDefaultDecode(1, inverted) && !inverted)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported decode array");
+
                 int columns = 1728;
                 int rows = 0;
                 auto decodeParms = istream.GetMediaDecodeParms()[0];
@@ -149,9 +185,11 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
                 auto decoder = fxcodec::FaxModule::CreateDecoder(
                     pdfium::span<const uint8_t>((const uint8_t *)imageData.data(), imageData.size()),
                     (int)m_Width, (int)m_Height, k, endOfLine, encodedByteAlign, blackIs1, columns, rows);
+                if (decoder == nullptr || decoder->GetWidth() < (int64_t)m_Width)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Invalid size of CCITT fax data");
 
                 utls::FetchImageBW(stream, m_Width, m_Height,
-                    format, *decoder, smaskData, scanLine);
+                    format, *decoder, inverted, smaskData, scanLine);
                 break;
             }
             case PdfFilterType::JBIG2Decode:
@@ -178,7 +216,7 @@ PdfImage::PdfImage(PdfObject& obj)
 
 charbuff PdfImage::initScanLine(PdfPixelFormat format, int rowSize, charbuff& smaskData) const
 {
-    unsigned defaultRowSize;
+    size_t defaultRowSize;
     switch (format)
     {
         case PdfPixelFormat::RGBA:
@@ -189,21 +227,33 @@ charbuff PdfImage::initScanLine(PdfPixelFormat format, int rowSize, charbuff& sm
             {
                 unique_ptr<const PdfImage> smask;
                 if (PdfXObject::TryCreateFromObject(*smaskObj, smask))
-                    smask->GetObject().MustGetStream().CopyTo(smaskData);
+                {
+                    if (smask->m_Width != m_Width || smask->m_Height != m_Height)
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported soft mask of other size");
+
+                    charbuff decoded;
+                    smask->DecodeTo(decoded, PdfPixelFormat::Grayscale);
+
+                    // Remove the padding of the rows
+                    size_t stride = 4 * (((size_t)m_Width + 3) / 4);
+                    smaskData.resize((size_t)m_Width * m_Height);
+                    for (size_t i = 0; i < m_Height; i++)
+                        std::memcpy(smaskData.data() + i * m_Width, decoded.data() + i * stride, m_Width);
+                }
             }
 
-            defaultRowSize = 4 * m_Width;
+            defaultRowSize = 4 * (size_t)m_Width;
             break;
         }
         case PdfPixelFormat::RGB24:
         case PdfPixelFormat::BGR24:
         {
-            defaultRowSize = 4 * ((3 * m_Width + 3) / 4);
+            defaultRowSize = 4 * ((3 * (size_t)m_Width + 3) / 4);
             break;
         }
         case PdfPixelFormat::Grayscale:
         {
-            defaultRowSize = 4 * ((m_Width + 3) / 4);;
+            defaultRowSize = 4 * (((size_t)m_Width + 3) / 4);
             break;
         }
         default:
@@ -216,25 +266,72 @@ charbuff PdfImage::initScanLine(PdfPixelFormat format, int rowSize, charbuff& sm
     }
     else
     {
-        if (rowSize < (int)defaultRowSize)
+        if ((size_t)rowSize < defaultRowSize)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The buffer stride is too small");
 
         return charbuff((size_t)rowSize);
     }
 }
 
+// Return true if the decode array is missing or it has default
+// values. "inverted" tells if it exchanges minimum and maximum
+bool PdfImage::isDefaultDecode(unsigned components, bool& inverted) const
+{
+    inverted = false;
+    auto decodeObj = GetDictionary().FindKey("Decode");
+    const PdfArray* decode;
+    if (decodeObj == nullptr || !decodeObj->TryGetArray(decode) || decode->GetSize() < components * 2)
+        return true;
+
+    bool normal = true;
+    inverted = true;
+    for (unsigned i = 0; i < components * 2; i++)
+    {
+        double value = decode->MustFindAt(i).GetReal();
+        normal = normal && value == i % 2;
+        inverted = inverted && value == 1 - (int)(i % 2);
+    }
+
+    return normal;
+}
+
+// Map 8 bit samples with the decode array, if present
+void PdfImage::applyDecode(charbuff& imageData, unsigned components) const
+{
+    bool inverted;
+    if (isDefaultDecode(components, inverted))
+        return;
+
+    auto& decode = GetDictionary().MustFindKey("Decode").GetArray();
+    vector<unsigned char> table(components * 256);
+    for (unsigned i = 0; i < components; i++)
+    {
+        double min = decode.MustFindAt(i * 2).GetReal();
+        double max = decode.MustFindAt(i * 2 + 1).GetReal();
+        for (unsigned j = 0; j < 256; j++)
+        {
+            double value = min + j * (max - min) / 255;
+            table[i * 256 + j] = (unsigned char)std::lround(std::clamp(value, 0.0, 1.0) * 255);
+        }
+    }
+
+    for (size_t i = 0; i < imageData.size(); i++)
+        imageData[i] = (char)table[i % components * 256 + (unsigned char)imageData[i]];
+}
+
 PdfColorSpace PdfImage::GetColorSpace() const
 {
     auto colorSpace = GetDictionary().FindKey("ColorSpace");
     if (colorSpace == nullptr)
         return PdfColorSpace::Unknown;
 
-    // CHECK-ME: Check if this is correct in the general case
-    if (colorSpace->IsArray())
-        return PdfColorSpace::Indexed;
+    // The family is the first element of an array
+    const PdfArray* arr;
+    if (colorSpace->TryGetArray(arr))
+        colorSpace = arr->GetSize() == 0 ? nullptr : arr->FindAt(0);
 
     const PdfName* name;
-    if (colorSpace->TryGetName(name))
+    if (colorSpace != nullptr && colorSpace->TryGetName(name))
         return mm::NameToColorSpaceRaw(name->GetString());
 
     return PdfColorSpace::Unknown;
@@ -276,28 +373,26 @@ void PdfImage::SetData(const bufferview& buffer, unsigned width, unsigned height
 
 void PdfImage::SetData(InputStream& stream, unsigned width, unsigned height, PdfPixelFormat format, int rowSize)
 {
-    m_Width = width;
-    m_Height = height;
     PdfColorSpace colorSpace;
-    unsigned defaultRowSize;
-    unsigned pdfRowSize;
+    size_t defaultRowSize;
+    size_t pdfRowSize;
     bool needFetch = false;
     switch (format)
     {
         case PdfPixelFormat::Grayscale:
             colorSpace = PdfColorSpace::DeviceGray;
-            defaultRowSize = 4 * ((width + 3) / 4);
+            defaultRowSize = 4 * (((size_t)width + 3) / 4);
             pdfRowSize = width;
             break;
         case PdfPixelFormat::RGB24:
             colorSpace = PdfColorSpace::DeviceRGB;
-            defaultRowSize = 4 * ((3 * width + 3) / 4);
-            pdfRowSize = 3 * width;
+            defaultRowSize = 4 * ((3 * (size_t)width + 3) / 4);
+            pdfRowSize = 3 * (size_t)width;
             break;
         case PdfPixelFormat::BGR24:
             colorSpace = PdfColorSpace::DeviceRGB;
-            defaultRowSize = 4 * ((3 * width + 3) / 4);
-            pdfRowSize = 3 * width;
+            defaultRowSize = 4 * ((3 * (size_t)width + 3) / 4);
+            pdfRowSize = 3 * (size_t)width;
             needFetch = true;
             break;
         case PdfPixelFormat::RGBA:
@@ -307,8 +402,13 @@ void PdfImage::SetData(InputStream& stream, unsigned width, unsigned height, Pdf
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
 
+    if (rowSize >= 0 && (size_t)rowSize < pdfRowSize)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The buffer stride is too small");
+
+    m_Width = width;
+    m_Height = height;
     auto output = GetObject().GetOrCreateStream().GetOutputStream();
-    charbuff lineBuffer(rowSize < 0 ? defaultRowSize : (unsigned)rowSize);
+    charbuff lineBuffer(rowSize < 0 ? defaultRowSize : (size_t)rowSize);
     if (needFetch)
     {
         charbuff pdfLineBuffer(pdfRowSize);
@@ -363,28 +463,10 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
     }
     else
     {
-        PdfArray arr;
-        arr.Add(PdfName(mm::ColorSpaceToNameRaw(info.ColorSpace)));
-        arr.insert(arr.begin(), info.ColorSpaceArray.begin(), info.ColorSpaceArray.end());
         dict.AddKey("ColorSpace", info.ColorSpaceArray);
     }
 
-    GetObject().GetOrCreateStream().SetData(stream, true);
-
-    // If the filter list is supplied, set it now after stream writing
-    if (info.Filters.size() == 1)
-    {
-        dict.AddKey(PdfName::KeyFilter,
-            PdfName(mm::FilterToName(info.Filters.front())));
-    }
-    else if (info.Filters.size() > 1)
-    {
-        PdfArray arrFilters;
-        for (auto filterType : info.Filters)
-            arrFilters.Add(PdfName(mm::FilterToName(filterType)));
-
-        dict.AddKey(PdfName::KeyFilter, arrFilters);
-    }
+    GetObject().GetOrCreateStream().setRawData(stream, info.Filters);
 }
 
 void PdfImage::LoadFromFile(const string_view& filepath)
@@ -491,6 +573,9 @@ void PdfImage::ExportTo(charbuff& buff, PdfExportFormat format, PdfArray args) c
 void PdfImage::loadFromJpeg(const string_view& filename)
 {
     FILE* file = utls::fopen(filename, "rb");
+    if (file == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::FileNotFound, filename);
+
     jpeg_decompress_struct ctx;
     JpegErrorHandler jerr;
     try
@@ -657,51 +742,33 @@ void PdfImage::loadFromTiffHandle(void* handle)
 {
     TIFF* hInTiffHandle = (TIFF*)handle;
 
-    int32 row, width, height;
+    uint32_t row, width, height;
     uint16 samplesPerPixel, bitsPerSample;
-    uint16* sampleInfo;
-    uint16 extraSamples;
     uint16 planarConfig, photoMetric, orientation;
-    int32 resolutionUnit;
 
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width);
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height);
+    if (TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width) != 1
+        || TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height) != 1
+        || TIFFGetField(hInTiffHandle, TIFFTAG_PHOTOMETRIC, &photoMetric) != 1)
+    {
+        PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+    }
+
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_PLANARCONFIG, &planarConfig);
-    TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_PHOTOMETRIC, &photoMetric);
-    TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_EXTRASAMPLES, &extraSamples, &sampleInfo);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_ORIENTATION, &orientation);
 
-    resolutionUnit = 0;
-    float resX;
-    float resY;
-    TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_XRESOLUTION, &resX);
-    TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_YRESOLUTION, &resY);
-    TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_RESOLUTIONUNIT, &resolutionUnit);
-
-    int colorChannels = samplesPerPixel - extraSamples;
-
     int bitsPixel = bitsPerSample * samplesPerPixel;
 
     // TODO: implement special cases
     if (TIFFIsTiled(hInTiffHandle))
-    {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-    }
 
-    if (planarConfig != PLANARCONFIG_CONTIG && colorChannels != 1)
-    {
-        TIFFClose(hInTiffHandle);
+    if (planarConfig != PLANARCONFIG_CONTIG && samplesPerPixel != 1)
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-    }
 
     if (orientation != ORIENTATION_TOPLEFT)
-    {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-    }
 
     PdfImageInfo info;
     info.Width = width;
@@ -711,6 +778,10 @@ void PdfImage::loadFromTiffHandle(void* handle)
     {
         case PHOTOMETRIC_MINISBLACK:
         {
+            if (samplesPerPixel != 1)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
+            info.ColorSpace = PdfColorSpace::DeviceGray;
             if (bitsPixel == 1)
             {
                 PdfArray decode;
@@ -718,59 +789,46 @@ void PdfImage::loadFromTiffHandle(void* handle)
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
                 info.Decode = std::move(decode);
             }
-            else if (bitsPixel == 8 || bitsPixel == 16)
-            {
-                info.ColorSpace = PdfColorSpace::DeviceGray;
-            }
-            else
-            {
-                TIFFClose(hInTiffHandle);
+            else if (bitsPixel != 8 && bitsPixel != 16)
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-            }
             break;
         }
         case PHOTOMETRIC_MINISWHITE:
         {
-            if (bitsPixel == 1)
+            if (samplesPerPixel != 1)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
+            info.ColorSpace = PdfColorSpace::DeviceGray;
+            if (bitsPixel == 1 || bitsPixel == 8 || bitsPixel == 16)
             {
                 PdfArray decode;
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
                 info.Decode = std::move(decode);
             }
-            else if (bitsPixel == 8 || bitsPixel == 16)
-            {
-                info.ColorSpace = PdfColorSpace::DeviceGray;
-            }
             else
-            {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-            }
             break;
         }
         case PHOTOMETRIC_RGB:
         {
-            if (bitsPixel != 24)
-            {
-                TIFFClose(hInTiffHandle);
+            if (bitsPerSample != 8 || samplesPerPixel != 3)
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-            }
             info.ColorSpace = PdfColorSpace::DeviceRGB;
             break;
         }
         case PHOTOMETRIC_SEPARATED:
         {
-            if (bitsPixel != 32)
-            {
-                TIFFClose(hInTiffHandle);
+            if (bitsPerSample != 8 || samplesPerPixel != 4)
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-            }
             info.ColorSpace = PdfColorSpace::DeviceCMYK;
             break;
         }
         case PHOTOMETRIC_PALETTE:
         {
+            if (samplesPerPixel != 1 || bitsPixel > 8)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
             unsigned numColors = (1 << bitsPixel);
 
             PdfArray decode;
@@ -781,7 +839,8 @@ void PdfImage::loadFromTiffHandle(void* handle)
             uint16* rgbRed;
             uint16* rgbGreen;
             uint16* rgbBlue;
-            TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue);
+            if (TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue) != 1)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
 
             charbuff data(numColors * 3);
 
@@ -808,7 +867,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
 
         default:
         {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             break;
         }
@@ -822,9 +880,19 @@ void PdfImage::loadFromTiffHandle(void* handle)
         if (TIFFReadScanline(hInTiffHandle,
             &buffer[row * scanlineSize],
             row) == (-1))
-        {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+    }
+
+    if (bitsPerSample == 16)
+    {
+        // libtiff returns samples in the byte order of
+        // the machine, PDF wants the high byte first
+        for (size_t i = 0; i + 1 < bufferSize; i += 2)
+        {
+            uint16_t sample;
+            std::memcpy(&sample, &buffer[i], 2);
+            buffer[i] = (char)(sample >> 8);
+            buffer[i + 1] = (char)(sample & 0xFF);
         }
     }
 
@@ -844,7 +912,7 @@ void PdfImage::loadFromTiff(const string_view& filename)
     auto filename16 = utf8::utf8to16((string)filename);
     TIFF* hInfile = TIFFOpenW((wchar_t*)filename16.c_str(), "rb");
 #else
-    TIFF* hInfile = TIFFOpen(filename.data(), "rb");
+    TIFF* hInfile = TIFFOpen(((string)filename).c_str(), "rb");
 #endif
 
     if (hInfile == nullptr)
@@ -898,7 +966,7 @@ struct TiffData
         switch (whence)
         {
             case SEEK_SET:
-                if (static_cast<tsize_t>(pos) > m_size)
+                if (pos > static_cast<toff_t>(m_size))
                 {
                     m_pos = m_size;
                 }
@@ -908,7 +976,7 @@ struct TiffData
                 }
                 break;
             case SEEK_CUR:
-                if (static_cast<tsize_t>(pos + m_pos) > m_size)
+                if (pos > static_cast<toff_t>(m_size) - m_pos)
                 {
                     m_pos = m_size;
                 }
@@ -918,7 +986,7 @@ struct TiffData
                 }
                 break;
             case SEEK_END:
-                if (static_cast<tsize_t>(pos) > m_size)
+                if (pos > static_cast<toff_t>(m_size))
                 {
                     m_pos = 0;
                 }
@@ -985,7 +1053,17 @@ void PdfImage::loadFromTiffData(const unsigned char* data, size_t len)
     if (hInHandle == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
-    loadFromTiffHandle(hInHandle);
+    try
+    {
+        loadFromTiffHandle(hInHandle);
+    }
+    catch (...)
+    {
+        TIFFClose(hInHandle);
+        throw;
+    }
+
+    TIFFClose(hInHandle);
 }
 
 #endif // PDFMM_HAVE_TIFF_LIB
@@ -995,6 +1073,8 @@ void PdfImage::loadFromTiffData(const unsigned char* data, size_t len)
 void PdfImage::loadFromPng(const std::string_view& filename)
 {
     FILE* file = utls::fopen(filename, "rb");
+    if (file == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::FileNotFound, filename);
 
     try
     {
@@ -1036,7 +1116,17 @@ void PdfImage::loadFromPngHandle(FILE* stream)
     }
 
     png_init_io(png, stream);
-    LoadFromPngContent(*this, png, info);
+    try
+    {
+        LoadFromPngContent(*this, png, info);
+    }
+    catch (...)
+    {
+        png_destroy_read_struct(&png, &info, (png_infopp)nullptr);
+        throw;
+    }
+
+    png_destroy_read_struct(&png, &info, (png_infopp)nullptr);
 }
 
 struct PngData
@@ -1044,18 +1134,14 @@ struct PngData
     PngData(const unsigned char* data, png_size_t size) :
         m_data(data), m_pos(0), m_size(size) {}
 
-    void read(png_bytep data, png_size_t length)
+    bool read(png_bytep data, png_size_t length)
     {
         if (length > m_size - m_pos)
-        {
-            memcpy(data, &m_data[m_pos], m_size - m_pos);
-            m_pos = m_size;
-        }
-        else
-        {
-            memcpy(data, &m_data[m_pos], length);
-            m_pos += length;
-        }
+            return false;
+
+        memcpy(data, &m_data[m_pos], length);
+        m_pos += length;
+        return true;
     }
 
 private:
@@ -1071,8 +1157,7 @@ void PdfImage::loadFromPngData(const unsigned char* data, size_t len)
 
     PngData pngData(data, len);
     png_byte header[8];
-    pngData.read(header, 8);
-    if (png_sig_cmp(header, 0, 8))
+    if (!pngData.read(header, 8) || png_sig_cmp(header, 0, 8))
     {
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The file could not be recognized as a PNG file");
     }
@@ -1095,7 +1180,17 @@ void PdfImage::loadFromPngData(const unsigned char* data, size_t len)
     }
 
     png_set_read_fn(png, (png_voidp)&pngData, pngReadData);
-    LoadFromPngContent(*this, png, pnginfo);
+    try
+    {
+        LoadFromPngContent(*this, png, pnginfo);
+    }
+    catch (...)
+    {
+        png_destroy_read_struct(&png, &pnginfo, (png_infopp)nullptr);
+        throw;
+    }
+
+    png_destroy_read_struct(&png, &pnginfo, (png_infopp)nullptr);
 }
 
 void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
@@ -1148,18 +1243,16 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         &color_type, &interlace, NULL, NULL);
     // End
 
-    // Read the file
-    if (setjmp(png_jmpbuf(png)) != 0)
-    {
-        png_destroy_read_struct(&png, &pnginfo, (png_infopp)NULL);
-        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
-    }
-
     size_t rowLen = png_get_rowbytes(png, pnginfo);
     size_t len = rowLen * height;
     charbuff buffer(len);
 
     unique_ptr<png_bytep[]> rows(new png_bytep[height]);
+
+    // Read the file
+    if (setjmp(png_jmpbuf(png)) != 0)
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
+
     for (unsigned int y = 0; y < height; y++)
     {
         rows[y] = reinterpret_cast<png_bytep>(buffer.data() + y * rowLen);
@@ -1175,8 +1268,8 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
             && png_get_tRNS(png, pnginfo, &paletteTrans, &numTransColors, NULL)))
     {
         // Handle alpha channel and create smask
-        charbuff smask(width * height);
-        png_uint_32 smaskIndex = 0;
+        charbuff smask((size_t)width * height);
+        size_t smaskIndex = 0;
         if (color_type == PNG_COLOR_TYPE_PALETTE)
         {
             for (png_uint_32 r = 0; r < height; r++)
@@ -1191,13 +1284,13 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
                             color = row[c];
                             break;
                         case 4:
-                            color = c % 2 ? row[c / 2] >> 4 : row[c / 2] & 0xF;
+                            color = c % 2 ? row[c / 2] & 0xF : row[c / 2] >> 4;
                             break;
                         case 2:
-                            color = (row[c / 4] >> c % 4 * 2) & 3;
+                            color = (row[c / 4] >> (6 - c % 4 * 2)) & 3;
                             break;
                         case 1:
-                            color = (row[c / 4] >> c % 8) & 1;
+                            color = (row[c / 8] >> (7 - c % 8)) & 1;
                             break;
                         default:
                             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
@@ -1218,7 +1311,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
                     smask[smaskIndex++] = row[c * 4 + 3]; // 4th byte for alpha
                 }
             }
-            len = 3 * width * height;
+            len = smaskIndex * 3;
         }
         else if (color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
         {
@@ -1231,13 +1324,16 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
                     smask[smaskIndex++] = row[c * 2 + 1]; // 2nd byte for alpha
                 }
             }
-            len = width * height;
+            len = smaskIndex;
         }
+        // Drop what is left by the removed alpha channel
+        buffer.resize(len);
+
         SpanStreamDevice smaskinput(smask);
         PdfImageInfo smaksInfo;
         smaksInfo.Width = (unsigned)width;
         smaksInfo.Height = (unsigned)height;
-        smaksInfo.BitsPerComponent = (unsigned char)depth;
+        smaksInfo.BitsPerComponent = 8;
         smaksInfo.ColorSpace = PdfColorSpace::DeviceGray;
 
         auto smakeImage = image.GetDocument().CreateImage();
@@ -1267,6 +1363,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         idxObj.GetOrCreateStream().SetData(data);
 
         PdfArray array;
+        array.Add(PdfName("Indexed"));
         array.Add(PdfName("DeviceRGB"));
         array.Add(static_cast<int64_t>(colorCount - 1));
         array.Add(idxObj.GetIndirectReference());
@@ -1284,14 +1381,13 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
     // Set the image data and flate compress it
     SpanStreamDevice input(buffer);
     image.SetDataRaw(input, info);
-
-    png_destroy_read_struct(&png, &pnginfo, (png_infopp)NULL);
 }
 
 void pngReadData(png_structp pngPtr, png_bytep data, png_size_t length)
 {
     PngData* a = (PngData*)png_get_io_ptr(pngPtr);
-    a->read(data, length);
+    if (!a->read(data, length))
+        png_error(pngPtr, "Unexpected end of the data");
 }
 
 #endif // PDFMM_HAVE_PNG_LIB
@@ -1329,23 +1425,6 @@ unsigned PdfImage::GetHeight() const
     return m_Height;
 }
 
-unsigned PdfImage::getBufferSize(PdfPixelFormat format) const
-{
-    switch (format)
-    {
-        case PdfPixelFormat::RGBA:
-        case PdfPixelFormat::BGRA:
-            return 4 * m_Width * m_Height;
-        case PdfPixelFormat::RGB24:
-        case PdfPixelFormat::BGR24:
-            return 4 * ((3 * m_Width + 3) / 4) * m_Height;
-        case PdfPixelFormat::Grayscale:
-            return 4 * ((m_Width + 3) / 4) * m_Height;
-        default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
-    }
-}
-
 void fetchPDFScanLineRGB(unsigned char* dstScanLine, unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat)
 {
     switch (srcPixelFormat)
diff --git a/src/pdfmm/base/PdfImage.h b/src/pdfmm/base/PdfImage.h
index f4a5b78..3dd985f 100644
--- a/src/pdfmm/base/PdfImage.h
+++ b/src/pdfmm/base/PdfImage.h
@@ -21,12 +21,12 @@ class InputStream;
 
 struct PdfImageInfo
 {
-    unsigned Width;
-    unsigned Height;
+    unsigned Width = 0;
+    unsigned Height = 0;
     PdfFilterList Filters;
-    PdfColorSpace ColorSpace;
+    PdfColorSpace ColorSpace = PdfColorSpace::Unknown;
     PdfArray ColorSpaceArray;
-    unsigned char BitsPerComponent;
+    unsigned char BitsPerComponent = 0;
     PdfArray Decode;
 };
 
@@ -170,7 +170,9 @@ private:
 
     charbuff initScanLine(PdfPixelFormat format, int rowSize, charbuff& smask) const;
 
-    unsigned getBufferSize(PdfPixelFormat format) const;
+    bool isDefaultDecode(unsigned components, bool& inverted) const;
+
+    void applyDecode(charbuff& imageData, unsigned components) const;
 
 #ifdef PDFMM_HAVE_JPEG_LIB
     void loadFromJpegInfo(jpeg_decompress_struct& ctx, PdfImageInfo& info);
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 1d56285..c6d4517 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -371,6 +371,29 @@ void PdfObjectStream::setData(InputStream& stream, PdfFilterList filters, ssize_
         stream.CopyTo(output, (size_t)size);
 }
 
+void PdfObjectStream::setRawData(InputStream& stream, const PdfFilterList& filters)
+{
+    ensureClosed();
+    setData(stream, { }, -1, true);
+
+    // Set the filters after stream writing
+    if (filters.size() == 1)
+    {
+        m_Parent->GetDictionary().AddKey(PdfName::KeyFilter,
+            PdfName(mm::FilterToName(filters.front())));
+    }
+    else if (filters.size() > 1)
+    {
+        PdfArray arrFilters;
+        for (auto filterType : filters)
+            arrFilters.Add(PdfName(mm::FilterToName(filterType)));
+
+        m_Parent->GetDictionary().AddKey(PdfName::KeyFilter, arrFilters);
+    }
+
+    m_Filters = filters;
+}
+
 void PdfObjectStream::InitData(InputStream& stream, size_t size, PdfFilterList&& filterList)
 {
     PdfObjectOutputStream output(*this);
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 07f8c0e..8c4576a 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -88,6 +88,7 @@ class PDFMM_API PdfObjectStream final
     friend class PdfObjectInputStream;
     friend class PdfObjectOutputStream;
     friend class PdfImmediateWriter;
+    friend class PdfImage;
 
 private:
     /** Create a new PdfObjectStream object which has a parent PdfObject.
@@ -221,6 +222,9 @@ private:
 
     void setData(InputStream& stream, PdfFilterList filters, ssize_t size, bool markObjectDirty);
 
+    // Set data that is already encoded with the given filters
+    void setRawData(InputStream& stream, const PdfFilterList& filters);
+
 private:
     PdfObjectStream(const PdfObjectStream& rhs) = delete;
 
diff --git a/src/pdfmm/private/ImageUtils.cpp b/src/pdfmm/private/ImageUtils.cpp
index b36ab2e..be19a41 100644
--- a/src/pdfmm/private/ImageUtils.cpp
+++ b/src/pdfmm/private/ImageUtils.cpp
@@ -35,7 +35,7 @@ static void fetchScanLineBW(unsigned char* dstScanLine, unsigned width,
 void utls::FetchImageRGB(OutputStream& stream, unsigned width, unsigned heigth, PdfPixelFormat format,
     const unsigned char* imageData, const charbuff& smaskData, charbuff& scanLine)
 {
-    unsigned srcRowSize = width * 3;
+    size_t srcRowSize = (size_t)width * 3;
     if (smaskData.size() == 0)
     {
         for (unsigned i = 0; i < heigth; i++)
@@ -60,7 +60,7 @@ void utls::FetchImageRGB(OutputStream& stream, unsigned width, unsigned heigth,
 void utls::FetchImageGrayScale(OutputStream& stream, unsigned width, unsigned heigth, PdfPixelFormat format,
     const unsigned char* imageData, const charbuff& smaskData, charbuff& scanLine)
 {
-    unsigned srcRowSize = width * 3;
+    size_t srcRowSize = width;
     if (smaskData.size() == 0)
     {
         for (unsigned i = 0; i < heigth; i++)
@@ -76,22 +76,38 @@ void utls::FetchImageGrayScale(OutputStream& stream, unsigned width, unsigned he
         {
             fetchScanLineGrayScale((unsigned char*)scanLine.data(),
                 width, format, imageData + i * srcRowSize,
-                (const unsigned char*)smaskData.data() + i * width);
+                (const unsigned char*)smaskData.data() + i * srcRowSize);
             stream.Write(scanLine.data(), scanLine.size());
         }
     }
 }
 
+static vector<unsigned char> getScanLineBW(fxcodec::ScanlineDecoder& decoder, unsigned index, bool inverted)
+{
+    auto scanLine = decoder.GetScanline((int)index);
+    if (scanLine.empty())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image has less rows than its size requires");
+
+    vector<unsigned char> ret(scanLine.begin(), scanLine.end());
+    if (inverted)
+    {
+        for (auto& byte : ret)
+            byte = (unsigned char)~byte;
+    }
+
+    return ret;
+}
+
 void utls::FetchImageBW(OutputStream& stream, unsigned width, unsigned heigth, PdfPixelFormat format,
-    fxcodec::ScanlineDecoder& decoder, const charbuff& smaskData, charbuff& scanLine)
+    fxcodec::ScanlineDecoder& decoder, bool inverted, const charbuff& smaskData, charbuff& scanLine)
 {
     if (smaskData.size() == 0)
     {
         for (unsigned i = 0; i < heigth; i++)
         {
-            auto scanLineBW = decoder.GetScanline(i);
+            auto scanLineBW = getScanLineBW(decoder, i, inverted);
             fetchScanLineBW((unsigned char*)scanLine.data(),
-                width, format, (const unsigned char*)scanLineBW.data());
+                width, format, scanLineBW.data());
             stream.Write(scanLine.data(), scanLine.size());
         }
     }
@@ -99,7 +115,7 @@ void utls::FetchImageBW(OutputStream& stream, unsigned width, unsigned heigth, P
     {
         for (unsigned i = 0; i < heigth; i++)
         {
-            auto scanLineBW = decoder.GetScanline(i);
+            auto scanLineBW = getScanLineBW(decoder, i, inverted);
             fetchScanLineBW((unsigned char*)scanLine.data(),
                 width, format, scanLineBW.data(),
                 (const unsigned char*)smaskData.data() + i * width);
diff --git a/src/pdfmm/private/ImageUtils.h b/src/pdfmm/private/ImageUtils.h
index f7f7073..e9aca21 100644
--- a/src/pdfmm/private/ImageUtils.h
+++ b/src/pdfmm/private/ImageUtils.h
@@ -30,7 +30,7 @@ namespace utls
     /** Fetch a black and white image and write it to the stream
      */
     void FetchImageBW(mm::OutputStream& stream, unsigned width, unsigned heigth, mm::PdfPixelFormat format,
-        fxcodec::ScanlineDecoder& decoder, const mm::charbuff& smaskData, mm::charbuff& scanLine);
+        fxcodec::ScanlineDecoder& decoder, bool inverted, const mm::charbuff& smaskData, mm::charbuff& scanLine);
 
 #ifdef PDFMM_HAVE_JPEG_LIB
     void FetchImageJPEG(mm::OutputStream& stream, mm::PdfPixelFormat format, jpeg_decompress_struct* ctx,
diff --git a/src/pdfmm/private/JpegCommon.cpp b/src/pdfmm/private/JpegCommon.cpp
index e554c24..40a49fd 100644
--- a/src/pdfmm/private/JpegCommon.cpp
+++ b/src/pdfmm/private/JpegCommon.cpp
@@ -25,7 +25,7 @@ extern "C"
     {
         std::string error;
         error.resize(JMSG_LENGTH_MAX);
-        (*ctx->err->format_message) ((jpeg_common_struct*)&ctx, error.data()); \
+        (*ctx->err->format_message) (ctx, error.data());
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, error);
     }
 #pragma warning(pop)
-- 
2.43.0


From db97cc44e60afaf1f9471831f8ee91f091b3b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:03 +0000
Subject: [PATCH 59/66] fix: annotations, actions and destinations: rectangles
 of FitR, values of FitBV, named destinations, destinations kept alive after
 saving, RichMediaExecute, invalid, direct and removed annotations, appearance
 states

---
 src/pdfmm/base/PdfAction.cpp                 |  9 ++--
 src/pdfmm/base/PdfAnnotation.cpp             | 23 +++++++---
 src/pdfmm/base/PdfAnnotationCollection.cpp   | 47 +++++++++++++++-----
 src/pdfmm/base/PdfAnnotationCollection.h     |  4 +-
 src/pdfmm/base/PdfAnnotation_Types.cpp       |  6 +--
 src/pdfmm/base/PdfDestination.cpp            | 34 ++++++++------
 src/pdfmm/base/PdfDestination.h              |  6 +--
 src/pdfmm/private/PdfDeclarationsPrivate.cpp |  2 +-
 8 files changed, 89 insertions(+), 42 deletions(-)

diff --git a/src/pdfmm/base/PdfAction.cpp b/src/pdfmm/base/PdfAction.cpp
index e429d95..26f949e 100644
--- a/src/pdfmm/base/PdfAction.cpp
+++ b/src/pdfmm/base/PdfAction.cpp
@@ -31,16 +31,17 @@ static const char* s_names[] = {
     "Rendition",
     "Trans",
     "GoTo3DView",
+    "RichMediaExecute",
 };
 
 PdfAction::PdfAction(PdfDocument& doc, PdfActionType action)
     : PdfDictionaryElement(doc, "Action"), m_Type(action)
 {
-    PdfName type(utls::TypeNameForIndex((unsigned)action, s_names, (unsigned)std::size(s_names)));
-    if (type.IsNull())
+    auto type = utls::TypeNameForIndex((unsigned)action, s_names, (unsigned)std::size(s_names));
+    if (type == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
-    this->GetObject().GetDictionary().AddKey("S", type);
+    this->GetObject().GetDictionary().AddKey("S", PdfName(type));
 }
 
 PdfAction::PdfAction(PdfObject& obj)
@@ -89,5 +90,5 @@ void PdfAction::AddToDictionary(PdfDictionary& dictionary) const
     if (dictionary.HasKey("Dest"))
         PDFMM_RAISE_ERROR(PdfErrorCode::ActionAlreadyPresent);
 
-    dictionary.AddKey("A", this->GetObject());
+    dictionary.AddKeyIndirectSafe("A", this->GetObject());
 }
diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 6ca8597..16b948d 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -86,7 +86,7 @@ void mm::SetAppearanceStreamForObject(PdfObject& obj, PdfXObjectForm& xobj,
     {
         // when the state is defined, then the appearance is expected to be a dictionary
         auto apInnerObj = apObj->GetDictionary().FindKey(name);
-        if (apInnerObj == nullptr || !apInnerObj->IsDictionary())
+        if (apInnerObj == nullptr || !apInnerObj->IsDictionary() || apInnerObj->HasStream())
             apInnerObj = &apObj->GetDictionary().AddKey(name, PdfDictionary());
 
         apInnerObj->GetDictionary().AddKeyIndirectSafe(state, xobj.GetObject());
@@ -212,6 +212,9 @@ void PdfAnnotation::GetAppearanceStreams(vector<PdfAppearanceIdentity>& streams)
         else
             continue;
 
+        if (pair1.second == nullptr)
+            continue;
+
         PdfDictionary* apStateDict;
         if ( pair1.second->HasStream())
         {
@@ -221,7 +224,7 @@ void PdfAnnotation::GetAppearanceStreams(vector<PdfAppearanceIdentity>& streams)
         {
             for (auto& pair2 : apStateDict->GetIndirectIterator())
             {
-                if (pair2.second->HasStream())
+                if (pair2.second != nullptr && pair2.second->HasStream())
                     streams.push_back({ pair2.second, apType, pair2.first });
             }
         }
@@ -262,7 +265,12 @@ PdfObject* PdfAnnotation::getAppearanceStream(PdfAppearanceType appearance, cons
     if (state.IsNull())
         return apObjInn;
 
-    return apObjInn->GetDictionary().FindKey(state);
+    // A single appearance stream has no states
+    PdfDictionary* apStateDict;
+    if (apObjInn->HasStream() || !apObjInn->TryGetDictionary(apStateDict))
+        return nullptr;
+
+    return apStateDict->FindKey(state);
 }
 
 PdfDictionary* PdfAnnotation::getAppearanceDictionary() const
@@ -506,7 +514,8 @@ bool PdfAnnotation::tryCreateFromObject(const PdfObject& obj, PdfAnnotationType
             xobj = new PdfAnnotationProjection(const_cast<PdfObject&>(obj));
             return true;
         default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+            xobj = nullptr;
+            return false;
     }
 }
 
@@ -576,8 +585,12 @@ PdfAnnotationType PdfAnnotation::getAnnotationType(const type_info& typeInfo)
 
 PdfAnnotationType PdfAnnotation::getAnnotationType(const PdfObject& obj)
 {
+    const PdfDictionary* dict;
+    if (!obj.TryGetDictionary(dict))
+        return PdfAnnotationType::Unknown;
+
     const PdfName* name;
-    auto subTypeObj = obj.GetDictionary().FindKey(PdfName::KeySubtype);
+    auto subTypeObj = dict->FindKey(PdfName::KeySubtype);
     if (subTypeObj == nullptr || !subTypeObj->TryGetName(name))
         return PdfAnnotationType::Unknown;
 
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index af15e10..478548f 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -6,6 +6,7 @@
 
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfAnnotationCollection.h"
+#include "PdfDocument.h"
 #include "PdfPage.h"
 
 using namespace std;
@@ -47,10 +48,13 @@ void PdfAnnotationCollection::RemoveAnnotAt(unsigned index)
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Annots[index] != nullptr)
+    for (auto it = m_annotMap->begin(); it != m_annotMap->end(); it++)
     {
-        // It may be null if the annotation is invalid
-        m_annotMap->erase(m_annotMap->find(m_Annots[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_annotMap->erase(it);
+            break;
+        }
     }
 
     m_annotArray->RemoveAt(index);
@@ -86,21 +90,25 @@ unsigned PdfAnnotationCollection::GetCount() const
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::begin()
 {
+    initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::end()
 {
+    initAnnotations();
     return m_Annots.end();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::begin() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::end() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.end();
 }
 
@@ -137,13 +145,22 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Annots[index];
+    // It may be null if the annotation is invalid
+    auto& annot = m_Annots[index];
+    if (annot == nullptr)
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
+
+    return *annot;
 }
 
 PdfAnnotation& PdfAnnotationCollection::getAnnot(const PdfReference& ref) const
 {
     const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
-    return *m_Annots[(*m_annotMap).at(ref)];
+    auto found = m_annotMap->find(ref);
+    if (found == m_annotMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return getAnnotAt(found->second);
 }
 
 void PdfAnnotationCollection::initAnnotations()
@@ -158,12 +175,22 @@ void PdfAnnotationCollection::initAnnotations()
 
     m_Annots.reserve(m_annotArray->size());
     unique_ptr<PdfAnnotation> annot;
-    unsigned i = 0;
-    for (auto obj : m_annotArray->GetIndirectIterator())
+    for (unsigned i = 0; i < m_annotArray->size(); i++)
     {
-        (*m_annotMap)[obj->GetIndirectReference()] = i;
+        auto obj = m_annotArray->FindAt(i);
+        if (obj != nullptr && !obj->IsIndirect() && obj->IsDictionary())
+        {
+            // Direct annotations would be moved when the array is
+            // edited and can't be identified with a reference
+            obj = &m_Page->GetDocument().GetObjects().CreateObject(PdfObject(*obj));
+            m_annotArray->SetAtIndirectSafe(i, *obj);
+        }
+
+        if (obj != nullptr && obj->IsIndirect())
+            (*m_annotMap)[obj->GetIndirectReference()] = i;
+
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfAnnotation::TryCreateFromObject(*obj, annot))
+        if (obj != nullptr && PdfAnnotation::TryCreateFromObject(*obj, annot))
         {
             annot->SetPage(*m_Page);
             m_Annots.push_back(std::move(annot));
@@ -172,8 +199,6 @@ void PdfAnnotationCollection::initAnnotations()
         {
             m_Annots.push_back(nullptr);
         }
-
-        i++;
     }
 }
 
diff --git a/src/pdfmm/base/PdfAnnotationCollection.h b/src/pdfmm/base/PdfAnnotationCollection.h
index 11d32f5..c07e035 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.h
+++ b/src/pdfmm/base/PdfAnnotationCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
         private:
             TListIterator m_iterator;
diff --git a/src/pdfmm/base/PdfAnnotation_Types.cpp b/src/pdfmm/base/PdfAnnotation_Types.cpp
index 5cc5ae0..6e8277d 100644
--- a/src/pdfmm/base/PdfAnnotation_Types.cpp
+++ b/src/pdfmm/base/PdfAnnotation_Types.cpp
@@ -32,7 +32,7 @@ shared_ptr<PdfDestination> PdfAnnotationLink::getDestination()
         if (obj == nullptr)
             return nullptr;
 
-        m_Destination.reset(new PdfDestination(*obj));
+        m_Destination = PdfDestination::Create(*obj);
     }
 
     return m_Destination;
@@ -73,7 +73,7 @@ void PdfAnnotationPopup::SetOpen(const nullable<bool>& value)
 
 bool PdfAnnotationPopup::GetOpen() const
 {
-    return GetDictionary().GetKeyAs<bool>("Open", false);
+    return GetDictionary().FindKeyAs<bool>("Open", false);
 }
 
 void PdfAnnotationText::SetOpen(const nullable<bool>& value)
@@ -86,7 +86,7 @@ void PdfAnnotationText::SetOpen(const nullable<bool>& value)
 
 bool PdfAnnotationText::GetOpen() const
 {
-    return GetDictionary().GetKeyAs<bool>("Open", false);
+    return GetDictionary().FindKeyAs<bool>("Open", false);
 }
 
 PdfAnnotationTextMarkupBase::PdfAnnotationTextMarkupBase(PdfPage& page, PdfAnnotationType annotType, const PdfRect& rect)
diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index 77862f5..456826e 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -34,6 +34,8 @@ PdfDestination::PdfDestination(const PdfPage& page, PdfDestinationFit fit)
         type = PdfName("Fit");
     else if (fit == PdfDestinationFit::FitB)
         type = PdfName("FitB");
+    else
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidKey);
 
     auto& arr = GetArray();
     arr.Add(page.GetObject().GetIndirectReference());
@@ -154,7 +156,7 @@ void PdfDestination::AddToDictionary(PdfDictionary& dictionary) const
     if (dictionary.HasKey("A"))
         PDFMM_RAISE_ERROR(PdfErrorCode::ActionAlreadyPresent);
 
-    dictionary.AddKey("Dest", GetObject());
+    dictionary.AddKeyIndirectSafe("Dest", GetObject());
 }
 
 PdfPage* PdfDestination::GetPage()
@@ -164,16 +166,20 @@ PdfPage* PdfDestination::GetPage()
         return nullptr;
 
     // first entry in the array is the page - so just make a new page from it!
-    return &GetObject().GetDocument()->GetPages().GetPage(arr[0].GetReference());
+    PdfReference ref;
+    if (!arr[0].TryGetReference(ref))
+        return nullptr;
+
+    return &GetObject().GetDocument()->GetPages().GetPage(ref);
 }
 
 PdfDestinationType PdfDestination::GetType() const
 {
     auto& arr = GetArray();
-    if (arr.size() == 0)
+    if (arr.size() < 2)
         return PdfDestinationType::Unknown;
 
-    PdfName tp = arr[1].GetName();
+    PdfName tp = arr.MustFindAt(1).GetName();
     if (tp == "XYZ")
         return PdfDestinationType::XYZ;
     else if (tp == "Fit")
@@ -199,25 +205,27 @@ double PdfDestination::GetDValue() const
     PdfDestinationType tp = GetType();
     if (tp != PdfDestinationType::FitH
         && tp != PdfDestinationType::FitV
-        && tp != PdfDestinationType::FitBH)
+        && tp != PdfDestinationType::FitBH
+        && tp != PdfDestinationType::FitBV)
     {
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
     }
 
-    return GetArray()[2].GetReal();
+    return GetArray().MustFindAt(2).GetReal();
 }
 
 double PdfDestination::GetLeft() const
 {
     PdfDestinationType tp = GetType();
     if (tp != PdfDestinationType::FitV
+        && tp != PdfDestinationType::FitBV
         && tp != PdfDestinationType::XYZ
         && tp != PdfDestinationType::FitR)
     {
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
     }
 
-    return GetArray()[2].GetReal();
+    return GetArray().MustFindAt(2).GetReal();
 }
 
 PdfRect PdfDestination::GetRect() const
@@ -226,8 +234,8 @@ PdfRect PdfDestination::GetRect() const
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
 
     auto& arr = GetArray();
-    return PdfRect(arr[2].GetReal(), arr[3].GetReal(),
-        arr[4].GetReal(), arr[5].GetReal());
+    return PdfRect::FromCorners(arr.MustFindAt(2).GetReal(), arr.MustFindAt(3).GetReal(),
+        arr.MustFindAt(4).GetReal(), arr.MustFindAt(5).GetReal());
 }
 
 double PdfDestination::GetTop() const
@@ -237,12 +245,12 @@ double PdfDestination::GetTop() const
     switch (tp)
     {
         case PdfDestinationType::XYZ:
-            return arr[3].GetReal();
+            return arr.MustFindAt(3).GetReal();
         case PdfDestinationType::FitH:
         case PdfDestinationType::FitBH:
-            return arr[2].GetReal();
+            return arr.MustFindAt(2).GetReal();
         case PdfDestinationType::FitR:
-            return arr[5].GetReal();
+            return arr.MustFindAt(5).GetReal();
         case PdfDestinationType::Fit:
         case PdfDestinationType::FitV:
         case PdfDestinationType::FitB:
@@ -260,5 +268,5 @@ double PdfDestination::GetZoom() const
     if (GetType() != PdfDestinationType::XYZ)
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
 
-    return GetArray()[4].GetReal();
+    return GetArray().MustFindAt(4).GetReal();
 }
diff --git a/src/pdfmm/base/PdfDestination.h b/src/pdfmm/base/PdfDestination.h
index 81dbf01..ab37c9f 100644
--- a/src/pdfmm/base/PdfDestination.h
+++ b/src/pdfmm/base/PdfDestination.h
@@ -131,7 +131,7 @@ public:
     double GetTop() const;
 
     /** Get the destination Left position
-     *  Destination must be of type XYZ, FitV or FitR
+     *  Destination must be of type XYZ, FitV, FitBV or FitR
      *  otherwise exception is thrown.
      *
      * \returns the Left position
@@ -139,8 +139,8 @@ public:
     double GetLeft() const;
 
     /** Get the destination Value
-     *  Destination must be of type FitH, FitV
-     *  or FitBH, otherwise exception is thrown
+     *  Destination must be of type FitH, FitV,
+     *  FitBH or FitBV, otherwise exception is thrown
      *
      *  \returns the destination Value
      */
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 04f0adc..e353ea4 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -291,7 +291,7 @@ PdfAnnotationType mm::NameToAnnotationType(const string_view& str)
     else if (str == "Projection"sv)
         return PdfAnnotationType::Projection;
     else
-        PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
+        return PdfAnnotationType::Unknown;
 }
 
 PdfColorSpace mm::NameToColorSpaceRaw(const string_view& name)
-- 
2.43.0


From cb40ca358a9ba185b32201558f9a47020888b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:20 +0000
Subject: [PATCH 60/66] fix: form fields: one wrapper per field shared by form,
 parent and widget; inherited attributes, removal, flags, choices, check box
 states and captions

---
 src/pdfmm/base/PdfAcroForm.cpp                |  92 +++++++++---
 src/pdfmm/base/PdfAcroForm.h                  |   7 +-
 src/pdfmm/base/PdfAnnotationWidget.cpp        |  22 +++
 src/pdfmm/base/PdfAnnotationWidget.h          |   2 +-
 src/pdfmm/base/PdfButton.cpp                  |   6 +-
 src/pdfmm/base/PdfChoiceField.cpp             |  14 +-
 src/pdfmm/base/PdfComboBox.cpp                |   6 +-
 src/pdfmm/base/PdfField.cpp                   | 131 ++++++++----------
 src/pdfmm/base/PdfField.h                     |  12 +-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp |  58 ++++++--
 src/pdfmm/base/PdfFieldChildrenCollection.h   |   6 +-
 src/pdfmm/base/PdfListBox.cpp                 |   6 +-
 src/pdfmm/base/PdfPage.cpp                    |  22 ++-
 src/pdfmm/base/PdfPushButton.cpp              |  15 +-
 src/pdfmm/base/PdfTextBox.cpp                 |  15 +-
 15 files changed, 269 insertions(+), 145 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ddf5fd1..792c47a 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -96,13 +96,22 @@ PdfField& PdfAcroForm::getField(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Fields[index];
+    // It may be null if the field is invalid
+    auto& field = m_Fields[index];
+    if (field == nullptr)
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
+
+    return *field;
 }
 
 PdfField& PdfAcroForm::getField(const PdfReference& ref) const
 {
     const_cast<PdfAcroForm&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return getField(found->second);
 }
 
 void PdfAcroForm::RemoveFieldAt(unsigned index)
@@ -111,10 +120,13 @@ void PdfAcroForm::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
+    for (auto it = m_fieldMap->begin(); it != m_fieldMap->end(); it++)
     {
-        // It may be null if the field is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_fieldMap->erase(it);
+            break;
+        }
     }
 
     m_fieldArray->RemoveAt(index);
@@ -150,30 +162,29 @@ unsigned PdfAcroForm::GetFieldCount() const
 
 PdfAcroForm::iterator PdfAcroForm::begin()
 {
+    initFields();
     return iterator(m_Fields.begin());
 }
 
 PdfAcroForm::iterator PdfAcroForm::end()
 {
+    initFields();
     return iterator(m_Fields.end());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::begin() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.begin());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::end() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.end());
 }
 
-PdfField& PdfAcroForm::CreateField(PdfObject& obj, PdfFieldType type)
-{
-    return AddField(PdfField::Create(obj, *this, type));
-}
-
-PdfField& PdfAcroForm::AddField(unique_ptr<PdfField>&& field)
+PdfField& PdfAcroForm::AddField(const shared_ptr<PdfField>& field)
 {
     initFields();
     if (m_fieldArray == nullptr)
@@ -181,14 +192,40 @@ PdfField& PdfAcroForm::AddField(unique_ptr<PdfField>&& field)
 
     (*m_fieldMap)[field->GetObject().GetIndirectReference()] = m_fieldArray->GetSize();
     m_fieldArray->AddIndirectSafe(field->GetObject());
-    m_Fields.push_back(std::move(field));
+    m_Fields.push_back(field);
     return *m_Fields.back();
 }
 
-shared_ptr<PdfField> PdfAcroForm::GetFieldPtr(const PdfReference& ref)
+shared_ptr<PdfField> PdfAcroForm::FindFieldPtr(const PdfObject& obj)
 {
-    PDFMM_INVARIANT(m_fieldMap != nullptr);
-    return m_Fields[(*m_fieldMap)[ref]];
+    // Walk up to the root of the hierarchy, then follow the kids down
+    constexpr unsigned MaxDepth = 100;
+    vector<PdfReference> path;
+    auto curr = &obj;
+    while (true)
+    {
+        const PdfDictionary* dict;
+        if (path.size() == MaxDepth || !curr->TryGetDictionary(dict))
+            return nullptr;
+
+        path.push_back(curr->GetIndirectReference());
+        auto parent = dict->FindKey("Parent");
+        if (parent == nullptr)
+            break;
+
+        curr = parent;
+    }
+
+    initFields();
+    auto found = m_fieldMap->find(path.back());
+    if (found == m_fieldMap->end())
+        return nullptr;
+
+    auto ret = m_Fields[found->second];
+    for (size_t i = path.size() - 1; i > 0 && ret != nullptr; i--)
+        ret = ret->GetChildren().findFieldPtr(path[i - 1]);
+
+    return ret;
 }
 
 void PdfAcroForm::SetNeedAppearances(bool needAppearances)
@@ -222,17 +259,30 @@ void PdfAcroForm::initFields()
 
     m_Fields.reserve(m_fieldArray->size());
     unique_ptr<PdfField> field;
-    unsigned i = 0;
-    for (auto obj : m_fieldArray->GetIndirectIterator())
+    for (unsigned i = 0; i < m_fieldArray->size(); i++)
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
+        auto obj = m_fieldArray->FindAt(i);
+        if (obj != nullptr && !obj->IsIndirect() && obj->IsDictionary())
+        {
+            // Direct fields would be moved when the array is
+            // edited and can't be identified with a reference
+            obj = &GetDocument().GetObjects().CreateObject(PdfObject(*obj));
+            m_fieldArray->SetAtIndirectSafe(i, *obj);
+        }
+
+        if (obj != nullptr && obj->IsIndirect())
+            (*m_fieldMap)[obj->GetIndirectReference()] = i;
+
         // The field may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
+        {
+            field->m_AcroForm = this;
             m_Fields.push_back(std::move(field));
+        }
         else
+        {
             m_Fields.push_back(nullptr);
-
-        i++;
+        }
     }
 }
 
diff --git a/src/pdfmm/base/PdfAcroForm.h b/src/pdfmm/base/PdfAcroForm.h
index be098f2..e62e6cc 100644
--- a/src/pdfmm/base/PdfAcroForm.h
+++ b/src/pdfmm/base/PdfAcroForm.h
@@ -22,6 +22,7 @@ enum class PdfAcroFormDefaulAppearance
 class PDFMM_API PdfAcroForm final : public PdfDictionaryElement
 {
     friend class PdfField;
+    friend class PdfAnnotationWidget;
 
 public:
     /** Create a new PdfAcroForm dictionary object
@@ -142,9 +143,9 @@ public:
 
 private:
     // To be called by PdfField
-    PdfField& CreateField(PdfObject& obj, PdfFieldType type);
-    PdfField& AddField(std::unique_ptr<PdfField>&& field);
-    std::shared_ptr<PdfField> GetFieldPtr(const PdfReference& ref);
+    PdfField& AddField(const std::shared_ptr<PdfField>& field);
+    // To be called by PdfAnnotationWidget
+    std::shared_ptr<PdfField> FindFieldPtr(const PdfObject& obj);
 
 private:
     /** Initialize this object
diff --git a/src/pdfmm/base/PdfAnnotationWidget.cpp b/src/pdfmm/base/PdfAnnotationWidget.cpp
index 2bfb90a..47f0554 100644
--- a/src/pdfmm/base/PdfAnnotationWidget.cpp
+++ b/src/pdfmm/base/PdfAnnotationWidget.cpp
@@ -7,6 +7,8 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfAnnotationWidget.h"
 #include "PdfPage.h"
+#include "PdfDocument.h"
+#include "PdfAcroForm.h"
 
 using namespace std;
 using namespace mm;
@@ -21,6 +23,13 @@ PdfAnnotationWidget::PdfAnnotationWidget(PdfObject& obj)
 {
 }
 
+PdfAnnotationWidget::~PdfAnnotationWidget()
+{
+    // The field may be still owned by the form
+    if (m_Field != nullptr && m_Field->m_Widget == this)
+        m_Field->m_Widget = nullptr;
+}
+
 void PdfAnnotationWidget::SetField(const shared_ptr<PdfField>& field)
 {
     m_Field = field;
@@ -43,6 +52,19 @@ void PdfAnnotationWidget::initField()
     if (m_Field != nullptr)
         return;
 
+    // Share the field with the form, if it's part of it
+    auto acroForm = GetDocument().GetAcroForm();
+    if (acroForm != nullptr)
+    {
+        auto found = acroForm->FindFieldPtr(GetObject());
+        if (found != nullptr)
+        {
+            found->SetWidget(*this);
+            m_Field = found;
+            return;
+        }
+    }
+
     unique_ptr<PdfField> field;
     if (!PdfField::TryCreateFromObject(GetObject(), field))
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
diff --git a/src/pdfmm/base/PdfAnnotationWidget.h b/src/pdfmm/base/PdfAnnotationWidget.h
index e08787d..56d2f21 100644
--- a/src/pdfmm/base/PdfAnnotationWidget.h
+++ b/src/pdfmm/base/PdfAnnotationWidget.h
@@ -24,11 +24,11 @@ namespace mm {
         PdfAnnotationWidget(PdfPage& page, const PdfRect& rect);
         PdfAnnotationWidget(PdfObject& obj);
     public:
+        ~PdfAnnotationWidget();
         const PdfField& GetField() const;
         PdfField& GetField();
     private:
         void SetField(const std::shared_ptr<PdfField>& field);
-        const std::shared_ptr<PdfField>& GetFieldPtr() { return m_Field; }
     private:
         void initField();
     private:
diff --git a/src/pdfmm/base/PdfButton.cpp b/src/pdfmm/base/PdfButton.cpp
index 37cf698..f128442 100644
--- a/src/pdfmm/base/PdfButton.cpp
+++ b/src/pdfmm/base/PdfButton.cpp
@@ -48,11 +48,11 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetCaption(nullptr);
     }
@@ -60,7 +60,7 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfButton::GetCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index 12188c0..c0348a3 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -78,7 +78,7 @@ PdfString PdChoiceField::GetItem(unsigned index) const
     if (index >= optArray.GetSize())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
@@ -105,7 +105,7 @@ nullable<const PdfString&> PdChoiceField::GetItemDisplayText(int index) const
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
     }
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
@@ -139,11 +139,11 @@ void PdChoiceField::SetSelectedIndex(int index)
 int PdChoiceField::GetSelectedIndex() const
 {
     AssertTerminalField();
-    auto* valueObj = GetObject().GetDictionary().FindKey("V");
+    auto* valueObj = GetObject().GetDictionary().FindKeyParent("V");
     if (valueObj == nullptr || !valueObj->IsString())
         return -1;
 
-    auto& value = valueObj->GetString();
+    auto& value = valueObj->GetString().GetString();
     auto* opt = GetObject().GetDictionary().FindKey("Opt");
     if (opt == nullptr)
         return -1;
@@ -154,13 +154,13 @@ int PdChoiceField::GetSelectedIndex() const
         auto& found = optArray.MustFindAt(i);
         if (found.IsString())
         {
-            if (found.GetString() == value)
+            if (found.GetString().GetString() == value)
                 return i;
         }
         else if (found.IsArray())
         {
             auto& arr = found.GetArray();
-            if (arr.MustFindAt(0).GetString() == value)
+            if (arr.MustFindAt(0).GetString().GetString() == value)
                 return i;
         }
         else
@@ -184,7 +184,7 @@ void PdChoiceField::SetSpellcheckingEnabled(bool spellCheck)
 
 bool PdChoiceField::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), false);
 }
 
 void PdChoiceField::SetSorted(bool sorted)
diff --git a/src/pdfmm/base/PdfComboBox.cpp b/src/pdfmm/base/PdfComboBox.cpp
index 05fc3e9..6dbd447 100644
--- a/src/pdfmm/base/PdfComboBox.cpp
+++ b/src/pdfmm/base/PdfComboBox.cpp
@@ -14,13 +14,15 @@ using namespace mm;
 PdfComboBox::PdfComboBox(PdfAcroForm& acroform, const shared_ptr<PdfField>& parent)
     : PdChoiceField(acroform, PdfFieldType::ComboBox, parent)
 {
-    this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), true);
+    if (!IsComboBox())
+        this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), true);
 }
 
 PdfComboBox::PdfComboBox(PdfAnnotationWidget& widget, const shared_ptr<PdfField>& parent)
     : PdChoiceField(widget, PdfFieldType::ComboBox, parent)
 {
-    this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), true);
+    if (!IsComboBox())
+        this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), true);
 }
 
 PdfComboBox::PdfComboBox(PdfObject& obj, PdfAcroForm* acroform)
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 428a2d1..a6f50bd 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -25,7 +25,7 @@
 using namespace std;
 using namespace mm;
 
-void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname);
+static void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname, unsigned depth = 0);
 
 PdfField::PdfField(PdfAnnotationWidget& widget,
         PdfFieldType fieldType, const shared_ptr<PdfField>& parent) :
@@ -79,15 +79,21 @@ PdfField::PdfField(PdfObject& obj, PdfAcroForm* acroform, PdfFieldType fieldType
 
 bool PdfField::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfField>& field)
 {
+    if (!obj.IsDictionary())
+    {
+        field.reset();
+        return false;
+    }
+
     return tryCreateField(obj, getFieldType(obj), field);
 }
 
-unique_ptr<PdfField> PdfField::CreateChild()
+shared_ptr<PdfField> PdfField::CreateChild()
 {
     return createChildField(nullptr, PdfRect());
 }
 
-unique_ptr<PdfField> PdfField::CreateChild(PdfPage& page, const PdfRect& rect)
+shared_ptr<PdfField> PdfField::CreateChild(PdfPage& page, const PdfRect& rect)
 {
     return createChildField(&page, rect);
 }
@@ -121,7 +127,7 @@ void PdfField::initParent()
     m_Parent = shared_ptr<PdfField>(std::move(field));
 }
 
-unique_ptr<PdfField> PdfField::createChildField(PdfPage* page, const PdfRect& rect)
+shared_ptr<PdfField> PdfField::createChildField(PdfPage* page, const PdfRect& rect)
 {
     if (m_Widget == nullptr && m_AcroForm == nullptr)
     {
@@ -129,7 +135,12 @@ unique_ptr<PdfField> PdfField::createChildField(PdfPage* page, const PdfRect& re
             "Unsupported creating a child from a field not bound to an annotation or AcroForm");
     }
 
-    unique_ptr<PdfField> ret;
+    // NOTE: A field merged with its widget annotation can't have children
+    auto subtype = GetDictionary().FindKey(PdfName::KeySubtype);
+    if (m_Widget != nullptr || (subtype != nullptr && subtype->IsName() && subtype->GetName() == "Widget"))
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "The field is already bound to a widget");
+
+    shared_ptr<PdfField> ret;
     if (page == nullptr)
     {
         if (m_AcroForm == nullptr)
@@ -139,14 +150,22 @@ unique_ptr<PdfField> PdfField::createChildField(PdfPage* page, const PdfRect& re
     }
     else
     {
-        if (m_Widget != nullptr)
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "The field is already bound to a widget");
-
         // NOTE: Don't create a field from the page here. It's
         // enough to create a widget annotation. It will be
         // linked to the parent field below
         auto& widget = static_cast<PdfAnnotationWidget&>(page->GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-        ret = createField(widget, m_FieldType, GetPtr(), false);
+        try
+        {
+            ret = createField(widget, m_FieldType, GetPtr());
+        }
+        catch (...)
+        {
+            // Don't leave the widget of a field that couldn't be created
+            page->GetAnnotations().RemoveAnnot(widget.GetObject().GetIndirectReference());
+            throw;
+        }
+        ret->m_AcroForm = m_AcroForm;
+        widget.SetField(ret);
     }
 
     return ret;
@@ -169,9 +188,13 @@ PdfField& PdfField::Create(const string_view& name,
     {
         for (auto field : *acroForm)
         {
+            // It may be null if the field is invalid
+            if (field == nullptr)
+                continue;
+
             // Find a candidate parent with same name and type
             auto fieldName = field->GetNameRaw();
-            if (fieldName.has_value() && *fieldName == name)
+            if (fieldName.has_value() && fieldName->GetString() == name)
             {
                 if (field->GetType() != type)
                     throw runtime_error("Found field with same name and different type");
@@ -185,8 +208,9 @@ PdfField& PdfField::Create(const string_view& name,
     shared_ptr<PdfField> newField;
     if (candidateParent == nullptr)
     {
-        newField = createField(widget, type, nullptr, true);
+        newField = createField(widget, type, nullptr);
         newField->setName(name);
+        (void)doc.GetOrCreateAcroForm().AddField(newField);
     }
     else
     {
@@ -209,7 +233,7 @@ PdfField& PdfField::Create(const string_view& name,
             candidateParent = &actualParent;
         }
 
-        newField = createField(widget, type, candidateParent->GetPtr(), false);
+        newField = createField(widget, type, candidateParent->GetPtr());
         linkFieldObjectToParent(newField, *candidateParent, parentKeys, false, false);
     }
 
@@ -232,40 +256,6 @@ unique_ptr<PdfField> PdfField::Create(const string_view& name,
     return ret;
 }
 
-unique_ptr<PdfField> PdfField::Create(PdfObject& obj, PdfAcroForm& acroForm, PdfFieldType type)
-{
-    // NOTE: The following use the non initializing constructor
-    unique_ptr<PdfField> ret;
-    switch (type)
-    {
-        case PdfFieldType::PushButton:
-            ret.reset(new PdfPushButton(obj, &acroForm));
-            break;
-        case PdfFieldType::CheckBox:
-            ret.reset(new PdfCheckBox(obj, &acroForm));
-            break;
-        case PdfFieldType::RadioButton:
-            ret.reset(new PdfRadioButton(obj, &acroForm));
-            break;
-        case PdfFieldType::TextBox:
-            ret.reset(new PdfTextBox(obj, &acroForm));
-            break;
-        case PdfFieldType::ComboBox:
-            ret.reset(new PdfComboBox(obj, &acroForm));
-            break;
-        case PdfFieldType::ListBox:
-            ret.reset(new PdfListBox(obj, &acroForm));
-            break;
-        case PdfFieldType::Signature:
-            ret.reset(new PdfSignature(obj, &acroForm));
-            break;
-        default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
-    }
-
-    return ret;
-}
-
 unique_ptr<PdfField> PdfField::createField(PdfAcroForm& acroform, PdfFieldType type,
     const shared_ptr<PdfField>& parent)
 {
@@ -291,7 +281,7 @@ unique_ptr<PdfField> PdfField::createField(PdfAcroForm& acroform, PdfFieldType t
 }
 
 unique_ptr<PdfField> PdfField::createField(PdfAnnotationWidget& widget,
-    PdfFieldType type, const shared_ptr<PdfField>& parent, bool insertInAcroform)
+    PdfFieldType type, const shared_ptr<PdfField>& parent)
 {
     unique_ptr<PdfField> ret;
     switch (type)
@@ -321,9 +311,6 @@ unique_ptr<PdfField> PdfField::createField(PdfAnnotationWidget& widget,
             PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
     }
 
-    if (insertInAcroform)
-        (void)widget.GetDocument().GetOrCreateAcroForm().CreateField(ret->GetObject(), ret->GetType());
-
     return ret;
 }
 
@@ -349,12 +336,8 @@ PdfFieldType PdfField::getFieldType(const type_info& typeInfo)
 
 shared_ptr<PdfField> PdfField::GetPtr()
 {
-    if (m_AcroForm != nullptr)
-        return m_AcroForm->GetFieldPtr(GetObject().GetIndirectReference());
-    else if (m_Widget != nullptr)
-        return m_Widget->GetFieldPtr();
-    else
-        return nullptr;
+    // NOTE: It's null if the field is not owned by a form, another field or a widget
+    return weak_from_this().lock();
 }
 
 PdfField* PdfField::getParentTyped(PdfFieldType type) const
@@ -417,7 +400,11 @@ PdfFieldType PdfField::getFieldType(const PdfObject& obj)
     if (ftObj == nullptr)
         return PdfFieldType::Unknown;
 
-    auto& fieldType = ftObj->GetName();
+    const PdfName* ftName;
+    if (!ftObj->TryGetName(ftName))
+        return PdfFieldType::Unknown;
+
+    auto& fieldType = *ftName;
     if (fieldType == "Btn")
     {
         int64_t flags;
@@ -524,10 +511,8 @@ void PdfField::SetFieldFlag(int64_t value, bool set)
     // Retrieve parent field flags
     // CHECK-ME: It seems this semantics is not honored in all cases,
     // example for CheckBoxesRadioButton (s)
-    int64_t curr = 0;
-    auto fieldFlagsObj = GetDictionary().FindKeyParent("Ff");
-    if (fieldFlagsObj != nullptr)
-        curr = fieldFlagsObj->GetNumber();
+    int64_t curr;
+    (void)GetFieldFlags(GetObject(), curr);
 
     if (set)
     {
@@ -555,13 +540,12 @@ bool PdfField::GetFieldFlag(int64_t value, bool defvalue) const
 bool PdfField::GetFieldFlags(const PdfObject& obj, int64_t& value)
 {
     auto flagsObject = obj.GetDictionary().FindKeyParent("Ff");
-    if (flagsObject == nullptr)
+    if (flagsObject == nullptr || !flagsObject->TryGetNumber(value))
     {
         value = 0;
         return false;
     }
 
-    value = flagsObject->GetNumber();
     return true;
 }
 
@@ -652,7 +636,7 @@ nullable<const PdfString&> PdfField::GetName() const
 
 nullable<const PdfString&> PdfField::GetNameRaw() const
 {
-    auto obj = GetDictionary().GetKey("T");
+    auto obj = GetDictionary().FindKey("T");
     const PdfString* str;
     if (obj == nullptr || !obj->TryGetString(str))
         return { };
@@ -769,7 +753,7 @@ void PdfField::SetFocusEnterAction(const PdfAction& action)
 
 void PdfField::SetFocusLeaveAction(const PdfAction& action)
 {
-    this->addAlternativeAction("BI", action);
+    this->addAlternativeAction("Bl", action);
 }
 
 void PdfField::SetPageOpenAction(const PdfAction& action)
@@ -839,17 +823,22 @@ void PdfField::linkFieldObjectToParent(const shared_ptr<PdfField>& field, PdfFie
     }
 }
 
-void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname)
+void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname, unsigned depth)
 {
+    constexpr unsigned MaxDepth = 1000;
+    if (depth > MaxDepth)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::BrokenFile, "Too deep or looping field hierarchy");
+
     auto& dict = obj.GetDictionary();
     auto parent = dict.FindKey("Parent");
-    if (parent != nullptr)
-        getFullName(*parent, escapePartialNames, fullname);
+    if (parent != nullptr && parent->IsDictionary())
+        getFullName(*parent, escapePartialNames, fullname, depth + 1);
 
-    const PdfObject* nameObj = dict.GetKey("T");
-    if (nameObj != nullptr)
+    const PdfObject* nameObj = dict.FindKey("T");
+    const PdfString* nameStr;
+    if (nameObj != nullptr && nameObj->TryGetString(nameStr))
     {
-        string name = nameObj->GetString().GetString();
+        string name = nameStr->GetString();
         if (escapePartialNames)
         {
             // According to ISO 32000-1:2008, "12.7.3.2 Field Names":
diff --git a/src/pdfmm/base/PdfField.h b/src/pdfmm/base/PdfField.h
index 8ef8781..9417c58 100644
--- a/src/pdfmm/base/PdfField.h
+++ b/src/pdfmm/base/PdfField.h
@@ -22,7 +22,7 @@ class PdfPage;
 class PdfAcroForm;
 class PdfAnnotationWidget;
 
-class PDFMM_API PdfField : public PdfDictionaryElement
+class PDFMM_API PdfField : public PdfDictionaryElement, public std::enable_shared_from_this<PdfField>
 {
     friend class PdfSignature;
     friend class PdfButton;
@@ -267,12 +267,10 @@ private:
         PdfAcroForm& acroform, PdfFieldType fieldType);
     static std::unique_ptr<PdfField> Create(const std::string_view& name,
         PdfAcroForm& acroform, const std::type_info& typeInfo);
-    static std::unique_ptr<PdfField> Create(PdfObject& obj, PdfAcroForm& acroform,
-        PdfFieldType fieldType);
 
     // To be called by PdfFieldChildrenCollectionBase
-    std::unique_ptr<PdfField> CreateChild();
-    std::unique_ptr<PdfField> CreateChild(PdfPage& page, const PdfRect& rect);
+    std::shared_ptr<PdfField> CreateChild();
+    std::shared_ptr<PdfField> CreateChild(PdfPage& page, const PdfRect& rect);
     void SetParent(const std::shared_ptr<PdfField>& parent) { m_Parent = parent; }
 
 private:
@@ -281,7 +279,7 @@ private:
 
 private:
     static std::unique_ptr<PdfField> createField(PdfAnnotationWidget& widget,
-        PdfFieldType type, const std::shared_ptr<PdfField>& parent, bool insertInAcroform);
+        PdfFieldType type, const std::shared_ptr<PdfField>& parent);
 
     static std::unique_ptr<PdfField> createField(PdfAcroForm& acroform, PdfFieldType type,
         const std::shared_ptr<PdfField>& parent);
@@ -295,7 +293,7 @@ private:
     void addAlternativeAction(const PdfName& name, const PdfAction& action);
     static bool tryCreateField(PdfObject& obj, PdfFieldType type,
         std::unique_ptr<PdfField>& field);
-    std::unique_ptr<PdfField> createChildField(PdfPage* page, const PdfRect& rect);
+    std::shared_ptr<PdfField> createChildField(PdfPage* page, const PdfRect& rect);
     static PdfFieldType getFieldType(const PdfObject& obj);
     static PdfFieldType getFieldType(const std::type_info& typeInfo);
     std::shared_ptr<PdfField> GetPtr();
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 76e05e8..6f7bbd4 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -7,6 +7,7 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfFieldChildrenCollection.h"
 #include "PdfField.h"
+#include "PdfDocument.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
 
@@ -54,10 +55,13 @@ void PdfFieldChildrenCollectionBase::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
+    for (auto it = m_fieldMap->begin(); it != m_fieldMap->end(); it++)
     {
-        // It may be null if the annotation is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_fieldMap->erase(it);
+            break;
+        }
     }
 
     m_kidsArray->RemoveAt(index);
@@ -99,21 +103,25 @@ bool PdfFieldChildrenCollectionBase::HasKidsArray() const
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::begin()
 {
+    initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::end()
 {
+    initFields();
     return m_Fields.end();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::begin() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::end() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.end();
 }
 
@@ -146,13 +154,32 @@ PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Fields[index];
+    // It may be null if the field is invalid
+    auto& field = m_Fields[index];
+    if (field == nullptr)
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
+
+    return *field;
 }
 
 PdfField& PdfFieldChildrenCollectionBase::getField(const PdfReference& ref) const
 {
     const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return getFieldAt(found->second);
+}
+
+shared_ptr<PdfField> PdfFieldChildrenCollectionBase::findFieldPtr(const PdfReference& ref)
+{
+    initFields();
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end())
+        return nullptr;
+
+    return m_Fields[found->second];
 }
 
 void PdfFieldChildrenCollectionBase::initFields()
@@ -167,22 +194,31 @@ void PdfFieldChildrenCollectionBase::initFields()
 
     m_Fields.reserve(m_kidsArray->size());
     unique_ptr<PdfField> field;
-    unsigned i = 0;
-    for (auto obj : m_kidsArray->GetIndirectIterator())
+    for (unsigned i = 0; i < m_kidsArray->size(); i++)
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
+        auto obj = m_kidsArray->FindAt(i);
+        if (obj != nullptr && !obj->IsIndirect() && obj->IsDictionary())
+        {
+            // Direct fields would be moved when the array is
+            // edited and can't be identified with a reference
+            obj = &m_field->GetDocument().GetObjects().CreateObject(PdfObject(*obj));
+            m_kidsArray->SetAtIndirectSafe(i, *obj);
+        }
+
+        if (obj != nullptr && obj->IsIndirect())
+            (*m_fieldMap)[obj->GetIndirectReference()] = i;
+
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
         {
             field->SetParent(m_field->GetPtr());
+            field->m_AcroForm = m_field->m_AcroForm;
             m_Fields.push_back(std::move(field));
         }
         else
         {
             m_Fields.push_back(nullptr);
         }
-
-        i++;
     }
 }
 
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.h b/src/pdfmm/base/PdfFieldChildrenCollection.h
index 4057501..26fd0fe 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.h
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.h
@@ -18,6 +18,7 @@ namespace mm
     class PDFMM_API PdfFieldChildrenCollectionBase
     {
         friend class PdfField;
+        friend class PdfAcroForm;
 
     private:
         PdfFieldChildrenCollectionBase(PdfField& field);
@@ -77,11 +78,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
         private:
             TListIterator m_iterator;
@@ -102,6 +103,7 @@ namespace mm
     private:
         PdfArray* getKidsArray() const;
         void initFields();
+        std::shared_ptr<PdfField> findFieldPtr(const PdfReference& ref);
         PdfField& getFieldAt(unsigned index) const;
         PdfField& getField(const PdfReference& ref) const;
         void fixIndices(unsigned index);
diff --git a/src/pdfmm/base/PdfListBox.cpp b/src/pdfmm/base/PdfListBox.cpp
index c25a218..43f6033 100644
--- a/src/pdfmm/base/PdfListBox.cpp
+++ b/src/pdfmm/base/PdfListBox.cpp
@@ -13,13 +13,15 @@ using namespace mm;
 PdfListBox::PdfListBox(PdfAcroForm& acroform, const shared_ptr<PdfField>& parent)
     : PdChoiceField(acroform, PdfFieldType::ListBox, parent)
 {
-    this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), false);
+    if (IsComboBox())
+        this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), false);
 }
 
 PdfListBox::PdfListBox(PdfAnnotationWidget& widget, const shared_ptr<PdfField>& parent)
     : PdChoiceField(widget, PdfFieldType::ListBox, parent)
 {
-    this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), false);
+    if (IsComboBox())
+        this->SetFieldFlag(static_cast<int>(ePdfListField_Combo), false);
 }
 
 PdfListBox::PdfListBox(PdfObject& obj, PdfAcroForm* acroform)
diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 63188a6..bee3a39 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -218,13 +218,31 @@ void PdfPage::MoveAt(unsigned index)
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, fieldType);
+    try
+    {
+        return PdfField::Create(name, annotation, fieldType);
+    }
+    catch (...)
+    {
+        // Don't leave the widget of a field that couldn't be created
+        GetAnnotations().RemoveAnnot(annotation.GetObject().GetIndirectReference());
+        throw;
+    }
 }
 
 PdfField& PdfPage::createField(const string_view& name, const type_info& typeInfo, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, typeInfo);
+    try
+    {
+        return PdfField::Create(name, annotation, typeInfo);
+    }
+    catch (...)
+    {
+        // Don't leave the widget of a field that couldn't be created
+        GetAnnotations().RemoveAnnot(annotation.GetObject().GetIndirectReference());
+        throw;
+    }
 }
 
 bool PdfPage::SetPageWidth(int newWidth)
diff --git a/src/pdfmm/base/PdfPushButton.cpp b/src/pdfmm/base/PdfPushButton.cpp
index 987c1de..31bad96 100644
--- a/src/pdfmm/base/PdfPushButton.cpp
+++ b/src/pdfmm/base/PdfPushButton.cpp
@@ -32,18 +32,19 @@ PdfPushButton::PdfPushButton(PdfObject& obj, PdfAcroForm* acroform)
 void PdfPushButton::init()
 {
     // make a push button
-    this->SetFieldFlag(static_cast<int>(ePdfButton_PushButton), true);
+    if (!IsPushButton())
+        this->SetFieldFlag(static_cast<int>(ePdfButton_PushButton), true);
 }
 
 void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetRolloverCaption(nullptr);
     }
@@ -51,7 +52,7 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&>  PdfPushButton::GetRolloverCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
@@ -62,11 +63,11 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetAlternateCaption(nullptr);
     }
@@ -75,7 +76,7 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfPushButton::GetAlternateCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 6f3ceb2..ff409c7 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -8,6 +8,8 @@
 #include "PdfTextBox.h"
 #include "PdfDictionary.h"
 
+#include <algorithm>
+
 using namespace std;
 using namespace mm;
 
@@ -41,10 +43,11 @@ void PdfTextBox::SetText(nullable<const PdfString&> text)
     string_view key = this->IsRichText() ? "RV" : "V";
     if (text.has_value())
     {
-
-        // if text is longer than maxlen, truncate it
+        // The maximum length is in characters
         int64_t maxLength = this->GetMaxLen();
-        if (maxLength != -1 && text->GetString().length() > (unsigned)maxLength)
+        auto& str = text->GetString();
+        auto length = std::count_if(str.begin(), str.end(), [](char ch) { return (ch & 0xC0) != 0x80; });
+        if (maxLength >= 0 && length > maxLength)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Unable to set text larger MaxLen");
 
         GetDictionary().AddKey(key, *text);
@@ -76,7 +79,7 @@ int64_t PdfTextBox::GetMaxLen() const
 {
     int64_t ret;
     auto found = GetDictionary().FindKeyParent("MaxLen");
-    if (found == nullptr || found->TryGetNumber(ret))
+    if (found == nullptr || !found->TryGetNumber(ret))
         return -1;
 
     return ret;
@@ -119,7 +122,7 @@ void PdfTextBox::SetSpellcheckingEnabled(bool spellcheck)
 
 bool PdfTextBox::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), false);
 }
 
 void PdfTextBox::SetScrollBarsEnabled(bool scroll)
@@ -129,7 +132,7 @@ void PdfTextBox::SetScrollBarsEnabled(bool scroll)
 
 bool PdfTextBox::IsScrollBarsEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), false);
 }
 
 void PdfTextBox::SetCombs(bool combs)
-- 
2.43.0


From b0dbecf5ae9499502a1970c620868c7cc65d1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 61/66] fix: hostile files: nested dictionaries, missing
 trailers, fonts collected as garbage, invalid text, unbalanced content,
 predictor sizes, damaged TrueType programs, unnamed faces, difference codes

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp     |  6 ++-
 src/pdfmm/base/PdfDocument.cpp               |  1 +
 src/pdfmm/base/PdfFontManager.cpp            | 38 ++++++++++++++-
 src/pdfmm/base/PdfFontManager.h              |  8 ++++
 src/pdfmm/base/PdfFontMetricsObject.cpp      | 14 +++++-
 src/pdfmm/base/PdfFontTrueTypeSubset.cpp     | 50 +++++++++++++++++---
 src/pdfmm/base/PdfFontTrueTypeSubset.h       |  1 +
 src/pdfmm/base/PdfPage_TextExtraction.cpp    | 32 +++++++++----
 src/pdfmm/base/PdfParser.cpp                 |  4 +-
 src/pdfmm/base/PdfString.cpp                 |  7 ++-
 src/pdfmm/base/PdfTokenizer.cpp              |  3 +-
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 46 ++++++++++++++++--
 src/pdfmm/private/PdfFiltersPrivate.cpp      |  5 +-
 13 files changed, 186 insertions(+), 29 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 740aff7..6b1a772 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2539,7 +2539,11 @@ unique_ptr<PdfDifferenceEncoding> PdfDifferenceEncoding::Create(
             }
             else if (diff.IsName())
             {
-                difference.AddDifference(static_cast<unsigned>(curCode), diff.GetName(), explicitNames);
+                // Names without a valid code are ignored
+                if (curCode < 0 || curCode > 255)
+                    continue;
+
+                difference.AddDifference(static_cast<unsigned char>(curCode), diff.GetName(), explicitNames);
                 curCode++;
             }
         }
diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 7347d4e..8835afb 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -304,6 +304,7 @@ void PdfDocument::fixObjectReferences(PdfObject& obj, unsigned difference, const
 void PdfDocument::CollectGarbage()
 {
     m_Objects.CollectGarbage();
+    m_FontManager.RemoveOrphanFonts();
 }
 
 PdfOutlines& PdfDocument::GetOrCreateOutlines()
diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index c2fd370..e3a7de5 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -18,6 +18,7 @@
 #include <utfcpp/utf8.h>
 
 #include "PdfDictionary.h"
+#include "PdfDocument.h"
 #include "PdfInputDevice.h"
 #include "PdfOutputDevice.h"
 #include "PdfFont.h"
@@ -62,6 +63,37 @@ void PdfFontManager::Clear()
 {
     m_importedFonts.clear();
     m_fonts.clear();
+    m_orphanFonts.clear();
+}
+
+void PdfFontManager::RemoveOrphanFonts()
+{
+    for (auto it = m_fonts.begin(); it != m_fonts.end();)
+    {
+        if (m_doc->GetObjects().GetObject(it->first) != nullptr)
+        {
+            it++;
+            continue;
+        }
+
+        auto font = it->second.Font.get();
+        for (auto& pair : m_importedFonts)
+        {
+            auto& fonts = pair.second;
+            fonts.erase(std::remove(fonts.begin(), fonts.end(), font), fonts.end());
+        }
+
+        m_orphanFonts.push_back(std::move(it->second.Font));
+        it = m_fonts.erase(it);
+    }
+
+    for (auto it = m_importedFonts.begin(); it != m_importedFonts.end();)
+    {
+        if (it->second.size() == 0)
+            it = m_importedFonts.erase(it);
+        else
+            it++;
+    }
 }
 
 PdfFont* PdfFontManager::AddImported(unique_ptr<PdfFont>&& font)
@@ -281,7 +313,11 @@ unique_ptr<charbuff> PdfFontManager::getFontData(const string_view& fontName,
 
 PdfFont* PdfFontManager::GetFont(FT_Face face, const PdfFontCreateParams& params)
 {
-    string fontName = FT_Get_Postscript_Name(face);
+    string fontName;
+    auto psname = FT_Get_Postscript_Name(face);
+    if (psname != nullptr)
+        fontName = psname;
+
     if (fontName.empty())
     {
         mm::LogMessage(PdfLogSeverity::Error, "Could not retrieve fontname for font!");
diff --git a/src/pdfmm/base/PdfFontManager.h b/src/pdfmm/base/PdfFontManager.h
index 7afb00d..d40511a 100644
--- a/src/pdfmm/base/PdfFontManager.h
+++ b/src/pdfmm/base/PdfFontManager.h
@@ -121,6 +121,12 @@ public:
     static PdfFontConfigWrapper& GetFontConfigWrapper();
 #endif // PDFMM_HAVE_FONTCONFIG
 
+    /** Forget about the fonts whose object was removed
+     * from the document. Called by PdfDocument after
+     * garbage collection
+     */
+    void RemoveOrphanFonts();
+
     /** Called by PdfDocument before saving
      */
     void EmbedFonts();
@@ -212,6 +218,8 @@ private:
     ImportedFontMap m_importedFonts;
     // Map of all fonts
     FontMap m_fonts;
+    // Fonts whose object was removed from the document
+    std::vector<std::unique_ptr<PdfFont>> m_orphanFonts;
 
 #ifdef PDFMM_HAVE_FONTCONFIG
     static std::shared_ptr<PdfFontConfigWrapper> m_fontConfig;
diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index db1eb23..ee4ea6d 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -19,6 +19,7 @@ using namespace mm;
 using namespace std;
 
 static PdfFontStretch stretchFromString(const string_view& str);
+static int toInt(double value, int defValue);
 
 PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObject* descriptor) :
     m_DefaultWidth(0),
@@ -300,9 +301,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         }
 
         // NOTE: Found a valid document with "/FontWeight 400.0" so just read the value as double
-        m_Weight = static_cast<int>(dict.FindKeyAs<double>("FontWeight", -1));
+        m_Weight = toInt(dict.FindKeyAs<double>("FontWeight", -1), -1);
         m_Flags = (PdfFontDescriptorFlags)dict.FindKeyAs<int64_t>("Flags", 0);
-        m_ItalicAngle = static_cast<int>(dict.FindKeyAs<double>("ItalicAngle", 0));
+        m_ItalicAngle = toInt(dict.FindKeyAs<double>("ItalicAngle", 0), 0);
         m_Ascent = dict.FindKeyAs<double>("Ascent", 0) * m_Matrix[3];
         m_Descent = dict.FindKeyAs<double>("Descent", 0) * m_Matrix[3];
         m_Leading = dict.FindKeyAs<double>("Leading", -1) * m_Matrix[3];
@@ -544,6 +545,15 @@ vector<double> PdfFontMetricsObject::getBBox(const PdfObject& obj)
     return ret;
 }
 
+// Values that can't be represented are ignored
+int toInt(double value, int defValue)
+{
+    if (value > numeric_limits<int>::min() && value < numeric_limits<int>::max())
+        return static_cast<int>(value);
+    else
+        return defValue;
+}
+
 PdfFontStretch stretchFromString(const string_view& str)
 {
     if (str == "UltraCondensed")
diff --git a/src/pdfmm/base/PdfFontTrueTypeSubset.cpp b/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
index 17def9d..4df3f36 100644
--- a/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
+++ b/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
@@ -143,19 +143,37 @@ void PdfFontTrueTypeSubset::InitTables()
         // CIDFont dictionary, the 'cmap' table is not needed and shall not be present
 
         bool skipTable = false;
+        for (auto& table : m_tables)
+        {
+            // Only the first table with a tag is considered
+            if (table.Tag == tbl.Tag)
+                skipTable = true;
+        }
+        if (skipTable)
+            continue;
+
         switch (tbl.Tag)
         {
             case TTAG_head:
+                if (tbl.Length < 54)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Truncated TrueType table");
+
                 tableMask |= ReqTable::head;
                 break;
             case TTAG_hhea:
                 // required to get numHMetrics
+                if (tbl.Length < 36)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Truncated TrueType table");
+
                 tableMask |= ReqTable::hhea;
                 break;
             case TTAG_loca:
                 tableMask |= ReqTable::loca;
                 break;
             case TTAG_maxp:
+                if (tbl.Length < 6)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Truncated TrueType table");
+
                 tableMask |= ReqTable::maxp;
                 break;
             case TTAG_glyf:
@@ -258,8 +276,13 @@ void PdfFontTrueTypeSubset::LoadGID(GlyphContext& ctx, unsigned gid)
     if (m_glyphDatas.find(gid) != m_glyphDatas.end())
         return;
 
+    // Compound glyphs may be nested
+    utls::RecursionGuard guard;
+
     // https://docs.microsoft.com/en-us/typography/opentype/spec/loca
     auto& glyphData = m_glyphDatas[gid] = { };
+    uint32_t startOffset;
+    uint32_t endOffset;
     if (m_isLongLoca)
     {
         uint32_t offset1;
@@ -270,8 +293,8 @@ void PdfFontTrueTypeSubset::LoadGID(GlyphContext& ctx, unsigned gid)
         m_device->Seek(ctx.LocaTableOffset + sizeof(uint32_t) * (gid + 1));
         utls::ReadUInt32BE(*m_device, offset2);
 
-        glyphData.GlyphLength = offset2 - offset1;
-        glyphData.GlyphOffset = ctx.GlyfTableOffset + offset1;
+        startOffset = offset1;
+        endOffset = offset2;
     }
     else
     {
@@ -280,16 +303,24 @@ void PdfFontTrueTypeSubset::LoadGID(GlyphContext& ctx, unsigned gid)
 
         m_device->Seek(ctx.LocaTableOffset + sizeof(uint16_t) * gid);
         utls::ReadUInt16BE(*m_device, offset1);
-        unsigned uoffset1 = (unsigned)offset1 << 1u; // Handle the possible overflow
+        startOffset = (uint32_t)offset1 << 1u; // Handle the possible overflow
 
         m_device->Seek(ctx.LocaTableOffset + sizeof(uint16_t) * (gid + 1));
         utls::ReadUInt16BE(*m_device, offset2);
-        unsigned uoffset2 = (unsigned)offset2 << 1u; // Handle the possible overflow
+        endOffset = (uint32_t)offset2 << 1u; // Handle the possible overflow
+    }
 
-        glyphData.GlyphLength = uoffset2 - uoffset1;
-        glyphData.GlyphOffset = ctx.GlyfTableOffset + uoffset1;
+    // The glyphs don't overlap and must be contained in the file
+    size_t fileLength = m_device->GetLength();
+    if (endOffset < startOffset || (uint64_t)ctx.GlyfTableOffset + endOffset > fileLength
+        || (m_glyphDataLength += endOffset - startOffset) > fileLength)
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Invalid glyph data offsets");
     }
 
+    glyphData.GlyphLength = endOffset - startOffset;
+    glyphData.GlyphOffset = ctx.GlyfTableOffset + startOffset;
+
     glyphData.GlyphAdvOffset = glyphData.GlyphOffset + 5 * sizeof(uint16_t);
 
     if (glyphData.GlyphLength == 0)
@@ -310,6 +341,10 @@ void PdfFontTrueTypeSubset::LoadCompound(GlyphContext& ctx, const GlyphData& dat
     unsigned offset = 0;
     while (true)
     {
+        // The component must be contained in the glyph data
+        if (data.GlyphAdvOffset + offset + 2 * sizeof(uint16_t) > (size_t)data.GlyphOffset + data.GlyphLength)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Truncated compound glyph");
+
         ReadGlyphCompoundData(cmpData, data.GlyphAdvOffset + offset);
         LoadGID(ctx, cmpData.GlyphIndex);
         if (!TryAdvanceCompoundOffset(offset, cmpData.Flags))
@@ -557,6 +592,9 @@ bool TryAdvanceCompoundOffset(unsigned& offset, unsigned flags)
 
 void PdfFontTrueTypeSubset::CopyData(OutputStream& output, unsigned offset, unsigned size)
 {
+    if ((uint64_t)offset + size > m_device->GetLength())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Data outside of the font file");
+
     m_device->Seek(offset);
     m_tmpBuffer.resize(size);
     m_device->Read(m_tmpBuffer.data(), size);
diff --git a/src/pdfmm/base/PdfFontTrueTypeSubset.h b/src/pdfmm/base/PdfFontTrueTypeSubset.h
index d91d1ff..5edc3ac 100644
--- a/src/pdfmm/base/PdfFontTrueTypeSubset.h
+++ b/src/pdfmm/base/PdfFontTrueTypeSubset.h
@@ -129,6 +129,7 @@ private:
 
     std::vector<TrueTypeTable> m_tables;
     GlyphDatas m_glyphDatas;
+    uint64_t m_glyphDataLength = 0;
     std::vector<unsigned> m_orderedGIDs; // Ordered list of original GIDs as they will appear in the subset
     charbuff m_tmpBuffer;
 };
diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 49c8677..657a156 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -113,7 +113,9 @@ private:
 
 struct XObjectState
 {
-    const PdfXObjectForm* Form;
+    // NOTE: The form is kept alive, it may be used again
+    // after another one was read inside it
+    shared_ptr<const PdfXObject> Form;
     unsigned TextStateIndex;
 };
 
@@ -388,7 +390,11 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                     case PdfOperator::Q:
                     {
                         ASSERT(!context.BlockOpen, "Text block must be not open");
-                        context.States.Pop();
+                        // Ignore operators that don't match a saved state of this content
+                        unsigned minSize = context.XObjectStateIndices.size() == 0
+                            ? 1 : context.XObjectStateIndices.back().TextStateIndex + 1;
+                        if (context.States.GetSize() > minSize)
+                            context.States.Pop();
                         break;
                     }
                     default:
@@ -400,6 +406,11 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
 
                 break;
             }
+            case PdfContentType::UnexpectedKeyword:
+            {
+                // Ignore keywords that are not operators
+                break;
+            }
             case PdfContentType::ImageDictionary:
             case PdfContentType::ImageData:
             {
@@ -411,7 +422,7 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                 if (content.XObject->GetType() == PdfXObjectType::Form)
                 {
                     context.XObjectStateIndices.push_back({
-                        (const PdfXObjectForm*)content.XObject.get(),
+                        content.XObject,
                         context.States.GetSize()
                     });
                     context.States.Push();
@@ -688,7 +699,8 @@ bool decodeString(const PdfString &str, TextState &state, string &decoded,
             // As a fallback try to retrieve the raw string
             // CHECK-ME: Maybe intrepret them as PdfDocEncoding?
             decoded = str.GetString();
-            lengths.resize(decoded.length());
+            lengths.assign(decoded.length(), 0);
+            positions.clear();
             positions.reserve(decoded.length());
             for (unsigned i = 0; i < decoded.length(); i++)
                 positions.push_back(i);
@@ -747,12 +759,14 @@ StatefulString StatefulString::GetTrimmedBegin() const
         for (unsigned i = 0; i < StringPositions.size(); i++)
         {
             if (StringPositions[i] >= trimmedLen)
-            {
-                lowerIndex = i;
                 break;
-            }
+
+            // The spaces may be the begin only of the text of a glyph
+            if (i + 1 == StringPositions.size() || StringPositions[i + 1] > trimmedLen)
+                break;
 
             length += Lengths[i];
+            lowerIndex = i + 1;
         }
 
         state.T_m.Apply<Tx>(length);
@@ -762,7 +776,7 @@ StatefulString StatefulString::GetTrimmedBegin() const
     // Fixed string positions after trim
     auto positions = vector<unsigned>(StringPositions.begin() + lowerIndex, StringPositions.end());
     for (unsigned i = 0; i < positions.size(); i++)
-        positions[i] -= trimmedLen;
+        positions[i] = positions[i] < trimmedLen ? 0 : positions[i] - trimmedLen;
 
     // After, rewrite the string without spaces
     return StatefulString(str.substr(trimmedLen), state,
@@ -1022,7 +1036,7 @@ const PdfCanvas& ExtractionContext::getActualCanvas()
     if (XObjectStateIndices.size() == 0)
         return m_page;
 
-    return *XObjectStateIndices.back().Form;
+    return static_cast<const PdfXObjectForm&>(*XObjectStateIndices.back().Form);
 }
 
 void ExtractionContext::addEntry()
diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 2638203..14faa18 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -622,7 +622,9 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 
 void PdfParser::ReadObjects(InputStreamDevice& device)
 {
-    PDFMM_ASSERT(m_Trailer != nullptr);
+    if (m_Trailer == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoTrailer, "The file has no trailer");
+
     unsigned encryptNum = 0;
     // Check for encryption and make sure that the encryption object
     // is loaded before all other objects
diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index ce7c46c..b938f13 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -358,8 +358,11 @@ void PdfString::evaluateString() const
                 }
                 case StringEncoding::utf8:
                 {
-                    // Remove BOM
-                    m_data->Chars.substr(3).swap(m_data->Chars);
+                    // Remove BOM and replace invalid sequences
+                    string utf8;
+                    auto view = string_view(m_data->Chars).substr(3);
+                    utf8::replace_invalid(view.begin(), view.end(), std::back_inserter(utf8));
+                    utf8.swap(m_data->Chars);
                     m_data->State = PdfStringState::Unicode;
                     break;
                 }
diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index ada8ca8..e1bfb9c 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -233,7 +233,6 @@ void PdfTokenizer::ReadNextVariant(InputStreamDevice& device, const string_view&
 
 bool PdfTokenizer::TryReadNextVariant(InputStreamDevice& device, const string_view& token, PdfTokenType tokenType, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
-    utls::RecursionGuard guard;
     PdfLiteralDataType dataType = DetermineDataType(device, token, tokenType, variant);
     return tryReadDataType(device, dataType, variant, encrypt);
 }
@@ -385,6 +384,8 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
 
 bool PdfTokenizer::tryReadDataType(InputStreamDevice& device, PdfLiteralDataType dataType, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
+    // Values of dictionaries are read directly from here
+    utls::RecursionGuard guard;
     switch (dataType)
     {
         case PdfLiteralDataType::Dictionary:
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e353ea4..94da4c2 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -39,6 +39,7 @@ constexpr unsigned BUFFER_SIZE = 4096;
 // due to instrumentation like ASAN which put guard bytes around stack variables to detect buffer overflows
 constexpr unsigned MaxRecursionDepthDefault = 256;
 
+static void readUtf16String(const bufferview& buffer, bool bigEndian, string& utf8str);
 static unsigned s_MaxRecursionDepth = MaxRecursionDepthDefault;
 thread_local unsigned s_recursionDepth = 0;
 
@@ -915,14 +916,51 @@ void utls::WriteUtf16BETo(u16string& str, char32_t codePoint)
 
 void utls::ReadUtf16BEString(const bufferview& buffer, string& utf8str)
 {
-    utf8::u16bechariterable iterable(buffer.data(), buffer.size());
-    utf8::utf16to8(iterable.begin(), iterable.end(), std::back_inserter(utf8str));
+    readUtf16String(buffer, true, utf8str);
 }
 
 void utls::ReadUtf16LEString(const bufferview& buffer, string& utf8str)
 {
-    utf8::u16lechariterable iterable(buffer.data(), buffer.size());
-    utf8::utf16to8(iterable.begin(), iterable.end(), std::back_inserter(utf8str));
+    readUtf16String(buffer, false, utf8str);
+}
+
+// NOTE: Unpaired surrogates and a single trailing
+// byte are read as the replacement character
+void readUtf16String(const bufferview& buffer, bool bigEndian, string& utf8str)
+{
+    constexpr char32_t ReplacementChar = 0xFFFD;
+    auto readUnit = [&](size_t i) -> char32_t
+    {
+        auto first = (unsigned char)buffer[i];
+        auto second = (unsigned char)buffer[i + 1];
+        return bigEndian ? (char32_t)(first << 8 | second) : (char32_t)(second << 8 | first);
+    };
+
+    size_t i = 0;
+    while (i + 1 < buffer.size())
+    {
+        char32_t ch = readUnit(i);
+        i += 2;
+        if (ch >= 0xD800 && ch <= 0xDFFF)
+        {
+            char32_t trail;
+            if (ch <= 0xDBFF && i + 1 < buffer.size()
+                && (trail = readUnit(i)) >= 0xDC00 && trail <= 0xDFFF)
+            {
+                i += 2;
+                ch = 0x10000 + ((ch - 0xD800) << 10) + (trail - 0xDC00);
+            }
+            else
+            {
+                ch = ReplacementChar;
+            }
+        }
+
+        utf8::unchecked::append(ch, std::back_inserter(utf8str));
+    }
+
+    if (i < buffer.size())
+        utf8::unchecked::append(ReplacementChar, std::back_inserter(utf8str));
 }
 
 void utls::FormatTo(string& str, signed char value)
diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 5b789bd..4592250 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -57,8 +57,9 @@ public:
         m_CurrRowIndex = 0;
 
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
-        if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
-            || utls::DoesMultiplicationOverflow(m_ColumnCount, m_BitsPerComponent * m_Colors))
+        int64_t bitsPerPixel = (int64_t)m_BitsPerComponent * m_Colors;
+        if (bitsPerPixel > std::numeric_limits<int>::max() - 7
+            || m_ColumnCount > (std::numeric_limits<int>::max() - 7) / bitsPerPixel)
         {
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
         }
-- 
2.43.0


From 48a1a3afaedc2914cecb570095316c742b89372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:03 +0000
Subject: [PATCH 62/66] fix: documents used in different threads raced for
 shared metrics, encodings, FreeType and the time zone

---
 src/pdfmm/base/PdfDate.cpp                  | 11 ++-
 src/pdfmm/base/PdfEncodingMap.cpp           | 20 ++---
 src/pdfmm/base/PdfEncodingMap.h             |  2 +
 src/pdfmm/base/PdfFontManager.cpp           | 14 +++-
 src/pdfmm/base/PdfFontMetrics.cpp           |  4 +-
 src/pdfmm/base/PdfFontMetricsStandard14.cpp | 83 +--------------------
 src/pdfmm/private/FreetypePrivate.cpp       | 35 +++++++--
 src/pdfmm/private/FreetypePrivate.h         |  9 +++
 8 files changed, 75 insertions(+), 103 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 7ea986e..d8773e5 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -431,10 +431,15 @@ chrono::seconds getSecondsFromEpoch()
 int getLocalOffesetFromUTCMinutes()
 {
     time_t t = time(nullptr);
-    struct tm* locg = localtime(&t);
+    struct tm locg;
+#ifdef _WIN32
+    localtime_s(&locg, &t);
+#else
+    localtime_r(&t, &locg);
+#endif
     struct tm locl;
-    memcpy(&locl, locg, sizeof(struct tm));
-    return (int)(timegm(locg) - mktime(&locl)) / 60;
+    memcpy(&locl, &locg, sizeof(struct tm));
+    return (int)(timegm(&locg) - mktime(&locl)) / 60;
 }
 
 bool tryReadShiftChar(const char*& in, int& zoneShift)
diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index a8a0281..384d84b 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -584,16 +584,18 @@ PdfBuiltInEncoding::PdfBuiltInEncoding(const PdfName& name)
 
 void PdfBuiltInEncoding::InitEncodingTable()
 {
-    if (!m_EncodingTable.empty())
-        return;
-
-    const char32_t* cpUnicodeTable = this->GetToUnicodeTable();
-    for (size_t i = 0; i < 256; i++)
+    // NOTE: The instances are shared by all the documents,
+    // which may be used in different threads
+    call_once(m_InitFlag, [this]()
     {
-        // fill the table with data
-        m_EncodingTable[cpUnicodeTable[i]] =
-            static_cast<unsigned char>(i);
-    }
+        const char32_t* cpUnicodeTable = this->GetToUnicodeTable();
+        for (size_t i = 0; i < 256; i++)
+        {
+            // fill the table with data
+            m_EncodingTable[cpUnicodeTable[i]] =
+                static_cast<unsigned char>(i);
+        }
+    });
 }
 
 bool PdfBuiltInEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUnit) const
diff --git a/src/pdfmm/base/PdfEncodingMap.h b/src/pdfmm/base/PdfEncodingMap.h
index 3c952b8..d9250b4 100644
--- a/src/pdfmm/base/PdfEncodingMap.h
+++ b/src/pdfmm/base/PdfEncodingMap.h
@@ -7,6 +7,7 @@
 #ifndef PDF_ENCODING_MAP_H
 #define PDF_ENCODING_MAP_H
 
+#include <mutex>
 #include "PdfDeclarations.h"
 #include "PdfObject.h"
 #include "PdfName.h"
@@ -290,6 +291,7 @@ private:
 
 private:
     PdfName m_Name;         // The name of the encoding
+    std::once_flag m_InitFlag;
     std::unordered_map<char32_t, char> m_EncodingTable; // The helper table for conversions into this encoding
 };
 
diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index e3a7de5..aff0fe9 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -8,6 +8,7 @@
 #include "PdfFontManager.h"
 
 #include <algorithm>
+#include <mutex>
 
 #if defined(_WIN32) && defined(PDFMM_HAVE_WIN32GDI)
 #include <pdfmm/private/WindowsLeanMean.h>
@@ -44,6 +45,7 @@ static PdfFont* matchFont(const mspan<PdfFont*>& fonts, const string_view& fontN
 
 #if defined(PDFMM_HAVE_FONTCONFIG)
 shared_ptr<PdfFontConfigWrapper> PdfFontManager::m_fontConfig;
+static mutex s_fontConfigMutex;
 #endif
 
 static constexpr unsigned SUBSET_PREFIX_LEN = 6;
@@ -468,6 +470,7 @@ PdfFont* PdfFontManager::getImportedFont(const PdfFontMetricsConstPtr& metrics,
 
 void PdfFontManager::SetFontConfigWrapper(const shared_ptr<PdfFontConfigWrapper>& fontConfig)
 {
+    lock_guard<mutex> lock(s_fontConfigMutex);
     if (m_fontConfig == fontConfig)
         return;
 
@@ -485,6 +488,7 @@ PdfFontConfigWrapper& PdfFontManager::GetFontConfigWrapper()
 
 shared_ptr<PdfFontConfigWrapper> PdfFontManager::ensureInitializedFontConfig()
 {
+    lock_guard<mutex> lock(s_fontConfigMutex);
     auto ret = m_fontConfig;
     if (ret == nullptr)
     {
@@ -522,16 +526,20 @@ unique_ptr<charbuff> getFontData(const string_view& filename, unsigned short fac
     FT_ULong length = 0;
     unique_ptr<charbuff> buffer;
     FT_Face face;
-    rc = FT_New_Face(mm::GetFreeTypeLibrary(), filename.data(), faceIndex, &face);
+    string filepath(filename);
+    FT_Open_Args openArgs{ };
+    openArgs.flags = FT_OPEN_PATHNAME;
+    openArgs.pathname = filepath.data();
+    rc = mm::OpenFreeTypeFace(openArgs, faceIndex, face);
     if (rc != 0)
     {
         // throw an exception
-        mm::LogMessage(PdfLogSeverity::Error, "FreeType returned the error {} when calling FT_New_Face for font {}",
+        mm::LogMessage(PdfLogSeverity::Error, "FreeType returned the error {} when calling FT_Open_Face for font {}",
             (int)rc, filename);
         return nullptr;
     }
 
-    unique_ptr<FT_FaceRec_, decltype(&FT_Done_Face)> face_(face, FT_Done_Face);
+    unique_ptr<FT_FaceRec_, decltype(&mm::DoneFreeTypeFace)> face_(face, mm::DoneFreeTypeFace);
     rc = FT_Load_Sfnt_Table(face, 0, 0, nullptr, &length);
     if (rc != 0)
         goto Error;
diff --git a/src/pdfmm/base/PdfFontMetrics.cpp b/src/pdfmm/base/PdfFontMetrics.cpp
index 731ba8f..7842908 100644
--- a/src/pdfmm/base/PdfFontMetrics.cpp
+++ b/src/pdfmm/base/PdfFontMetrics.cpp
@@ -361,9 +361,9 @@ const FreeTypeFacePtr& PdfFontMetricsBase::GetFaceHandle() const
 FreeTypeFacePtr::FreeTypeFacePtr() { }
 
 FreeTypeFacePtr::FreeTypeFacePtr(FT_Face face)
-    : shared_ptr<FT_FaceRec_>(face, FT_Done_Face) {}
+    : shared_ptr<FT_FaceRec_>(face, mm::DoneFreeTypeFace) {}
 
 void FreeTypeFacePtr::reset(FT_Face face)
 {
-    shared_ptr<FT_FaceRec_>::reset(face, FT_Done_Face);
+    shared_ptr<FT_FaceRec_>::reset(face, mm::DoneFreeTypeFace);
 }
diff --git a/src/pdfmm/base/PdfFontMetricsStandard14.cpp b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
index adc7631..7f0c527 100644
--- a/src/pdfmm/base/PdfFontMetricsStandard14.cpp
+++ b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
@@ -286,85 +286,10 @@ unsigned PdfFontMetricsStandard14::GetFontFileLength3() const
 shared_ptr<const PdfFontMetricsStandard14> PdfFontMetricsStandard14::GetInstance(
     PdfStandard14FontType std14Font)
 {
-    static shared_ptr<PdfFontMetricsStandard14> PDFMM_BUILTIN_FONTS[] = {
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::TimesRoman, mm::GetStandard14FontData(PdfStandard14FontType::TimesRoman)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::TimesItalic, mm::GetStandard14FontData(PdfStandard14FontType::TimesItalic)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::TimesBold, mm::GetStandard14FontData(PdfStandard14FontType::TimesBold)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::TimesBoldItalic, mm::GetStandard14FontData(PdfStandard14FontType::TimesBoldItalic)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::Helvetica, mm::GetStandard14FontData(PdfStandard14FontType::Helvetica)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::HelveticaOblique, mm::GetStandard14FontData(PdfStandard14FontType::HelveticaOblique)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::HelveticaBold, mm::GetStandard14FontData(PdfStandard14FontType::HelveticaBold)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::HelveticaBoldOblique, mm::GetStandard14FontData(PdfStandard14FontType::HelveticaBoldOblique)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::Courier, mm::GetStandard14FontData(PdfStandard14FontType::Courier)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::CourierOblique, mm::GetStandard14FontData(PdfStandard14FontType::CourierOblique)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::CourierBold, mm::GetStandard14FontData(PdfStandard14FontType::CourierBold)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::CourierBoldOblique, mm::GetStandard14FontData(PdfStandard14FontType::CourierBoldOblique)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::Symbol, mm::GetStandard14FontData(PdfStandard14FontType::Symbol)
-        )),
-        shared_ptr<PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
-            PdfStandard14FontType::ZapfDingbats, mm::GetStandard14FontData(PdfStandard14FontType::ZapfDingbats)
-        ))
-    };
-
-    switch (std14Font)
-    {
-        case PdfStandard14FontType::TimesRoman:
-            return PDFMM_BUILTIN_FONTS[0];
-        case PdfStandard14FontType::TimesItalic:
-            return PDFMM_BUILTIN_FONTS[1];
-        case PdfStandard14FontType::TimesBold:
-            return PDFMM_BUILTIN_FONTS[2];
-        case PdfStandard14FontType::TimesBoldItalic:
-            return PDFMM_BUILTIN_FONTS[3];
-        case PdfStandard14FontType::Helvetica:
-            return PDFMM_BUILTIN_FONTS[4];
-        case PdfStandard14FontType::HelveticaOblique:
-            return PDFMM_BUILTIN_FONTS[5];
-        case PdfStandard14FontType::HelveticaBold:
-            return PDFMM_BUILTIN_FONTS[6];
-        case PdfStandard14FontType::HelveticaBoldOblique:
-            return PDFMM_BUILTIN_FONTS[7];
-        case PdfStandard14FontType::Courier:
-            return PDFMM_BUILTIN_FONTS[8];
-        case PdfStandard14FontType::CourierOblique:
-            return PDFMM_BUILTIN_FONTS[9];
-        case PdfStandard14FontType::CourierBold:
-            return PDFMM_BUILTIN_FONTS[10];
-        case PdfStandard14FontType::CourierBoldOblique:
-            return PDFMM_BUILTIN_FONTS[11];
-        case PdfStandard14FontType::Symbol:
-            return PDFMM_BUILTIN_FONTS[12];
-        case PdfStandard14FontType::ZapfDingbats:
-            return PDFMM_BUILTIN_FONTS[13];
-        case PdfStandard14FontType::Unknown:
-        default:
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Invalid Standard14 font type");
-    }
+    // NOTE: Metrics load the font file on demand, the instances
+    // can't be shared by documents used in different threads
+    return shared_ptr<const PdfFontMetricsStandard14>(new PdfFontMetricsStandard14(
+        std14Font, mm::GetStandard14FontData(std14Font)));
 }
 
 
diff --git a/src/pdfmm/private/FreetypePrivate.cpp b/src/pdfmm/private/FreetypePrivate.cpp
index cd99bff..7587215 100644
--- a/src/pdfmm/private/FreetypePrivate.cpp
+++ b/src/pdfmm/private/FreetypePrivate.cpp
@@ -8,6 +8,9 @@
 #include "FreetypePrivate.h"
 #include FT_TRUETYPE_TABLES_H
 
+#include <mutex>
+
+using namespace std;
 using namespace mm;
 
 FT_Library mm::GetFreeTypeLibrary()
@@ -21,19 +24,37 @@ FT_Library mm::GetFreeTypeLibrary()
                 PDFMM_RAISE_ERROR(PdfErrorCode::FreeType);
         }
 
-        ~Init()
-        {
-
-            FT_Done_FreeType(Library);
-        }
-
         FT_Library Library;     // Handle to the freetype library
     };
 
+    // NOTE: The library is never released: faces hold by
+    // other static objects may be destroyed after it
     static Init init;
     return init.Library;
 }
 
+// The library is shared by all the threads, which is allowed
+// by FreeType if creation and destruction of faces are serialized
+static mutex& getFreeTypeMutex()
+{
+    // Never destroyed, see above
+    static mutex* s_mutex = new mutex();
+    return *s_mutex;
+}
+
+FT_Error mm::OpenFreeTypeFace(const FT_Open_Args& args, FT_Long faceIndex, FT_Face& face)
+{
+    auto library = GetFreeTypeLibrary();
+    lock_guard<mutex> lock(getFreeTypeMutex());
+    return FT_Open_Face(library, &args, faceIndex, &face);
+}
+
+void mm::DoneFreeTypeFace(FT_Face face)
+{
+    lock_guard<mutex> lock(getFreeTypeMutex());
+    (void)FT_Done_Face(face);
+}
+
 bool mm::TryCreateFreeTypeFace(const bufferview& view, FT_Face& face)
 {
     FT_Error rc;
@@ -44,7 +65,7 @@ bool mm::TryCreateFreeTypeFace(const bufferview& view, FT_Face& face)
     openArgs.memory_base = (const FT_Byte*)view.data();
     openArgs.memory_size = (FT_Long)view.size();
 
-    rc = FT_Open_Face(mm::GetFreeTypeLibrary(), &openArgs, 0, &face);
+    rc = OpenFreeTypeFace(openArgs, 0, face);
     if (rc != 0)
     {
         face = nullptr;
diff --git a/src/pdfmm/private/FreetypePrivate.h b/src/pdfmm/private/FreetypePrivate.h
index 3b9365b..9a82a5f 100644
--- a/src/pdfmm/private/FreetypePrivate.h
+++ b/src/pdfmm/private/FreetypePrivate.h
@@ -19,6 +19,15 @@
 namespace mm
 {
     FT_Library GetFreeTypeLibrary();
+
+    /** Thread safe replacement of FT_Open_Face
+     */
+    FT_Error OpenFreeTypeFace(const FT_Open_Args& args, FT_Long faceIndex, FT_Face& face);
+
+    /** Thread safe replacement of FT_Done_Face
+     */
+    void DoneFreeTypeFace(FT_Face face);
+
     bool TryCreateFreeTypeFace(const bufferview& view, FT_Face& face);
     FT_Face CreateFreeTypeFace(const bufferview& view);
     charbuff GetDataFromFace(FT_Face face);
-- 
2.43.0


From b2c1798c91fbc472fd38dfd8f807810990997e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:34 +0000
Subject: [PATCH 63/66] fix: a failed signing left an unreadable signature
 dictionary in the file

---
 src/pdfmm/base/PdfSigner.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfSigner.cpp b/src/pdfmm/base/PdfSigner.cpp
index 0979864..72c3009 100644
--- a/src/pdfmm/base/PdfSigner.cpp
+++ b/src/pdfmm/base/PdfSigner.cpp
@@ -154,8 +154,13 @@ void setSignature(StreamDevice& device, const string_view& contentsData,
 
 void prepareBeaconsData(size_t signatureSize, string& contentsBeacon, string& byteRangeBeacon)
 {
-    // Just prepare strings with spaces, for easy writing later
-    contentsBeacon.resize((signatureSize * 2) + 2, ' '); // Signature bytes will be encoded
-                                                         // as an hex string
+    // Prepare placeholders that will be easy to overwrite later.
+    // They are valid values, so the file can still be read
+    // if the signer or the device fail in the meanwhile
+    contentsBeacon.resize(signatureSize * 2 + 2, '0'); // Signature bytes will be encoded
+                                                       // as an hex string
+    contentsBeacon.front() = '<';
+    contentsBeacon.back() = '>';
+    byteRangeBeacon = "[ 0 0 0 0 ]";
     byteRangeBeacon.resize(char_traits<char>::length(ByteRangeBeacon), ' ');
 }
-- 
2.43.0


From 16152c5efd00e6df1383a997790b5a2065013d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:36 +0000
Subject: [PATCH 64/66] fix: failing devices: lost changes after a failed save,
 unreported failures, documents left partly loaded

---
 src/pdfmm/base/PdfDocument.cpp    | 35 +++++++++++++++++--------------
 src/pdfmm/base/PdfDocument.h      |  4 ++++
 src/pdfmm/base/PdfMemDocument.cpp | 14 ++++++++++++-
 src/pdfmm/base/PdfObject.h        |  1 +
 src/pdfmm/base/PdfParser.cpp      | 16 ++++++--------
 src/pdfmm/base/PdfWriter.cpp      | 20 +++++++++++++++---
 src/pdfmm/base/PdfWriter.h        |  1 +
 src/pdfmm/base/PdfXRefStream.cpp  |  7 +++++++
 src/pdfmm/base/PdfXRefStream.h    |  2 ++
 9 files changed, 70 insertions(+), 30 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 8835afb..617db6b 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -38,22 +38,7 @@ PdfDocument::PdfDocument(bool empty) :
     m_FontManager(*this)
 {
     if (!empty)
-    {
-        m_TrailerObj.reset(new PdfObject()); // The trailer is NO part of the vector of objects
-        m_TrailerObj->SetDocument(this);
-        auto& catalog = m_Objects.CreateDictionaryObject("Catalog");
-        m_Trailer.reset(new PdfTrailer(*m_TrailerObj));
-
-        m_Catalog.reset(new PdfCatalog(catalog));
-        m_TrailerObj->GetDictionary().AddKeyIndirect("Root", catalog);
-
-        auto& info = m_Objects.CreateDictionaryObject();
-        m_Info.reset(new PdfInfo(info,
-            PdfInfoInitial::WriteProducer | PdfInfoInitial::WriteCreationTime));
-        m_TrailerObj->GetDictionary().AddKeyIndirect("Info", info);
-
-        Init();
-    }
+        InitNew();
 }
 
 PdfDocument::PdfDocument(const PdfDocument& doc) :
@@ -83,6 +68,24 @@ void PdfDocument::Clear()
     m_Objects.SetCanReuseObjectNumbers(true);
 }
 
+void PdfDocument::InitNew()
+{
+    m_TrailerObj.reset(new PdfObject()); // The trailer is NO part of the vector of objects
+    m_TrailerObj->SetDocument(this);
+    auto& catalog = m_Objects.CreateDictionaryObject("Catalog");
+    m_Trailer.reset(new PdfTrailer(*m_TrailerObj));
+
+    m_Catalog.reset(new PdfCatalog(catalog));
+    m_TrailerObj->GetDictionary().AddKeyIndirect("Root", catalog);
+
+    auto& info = m_Objects.CreateDictionaryObject();
+    m_Info.reset(new PdfInfo(info,
+        PdfInfoInitial::WriteProducer | PdfInfoInitial::WriteCreationTime));
+    m_TrailerObj->GetDictionary().AddKeyIndirect("Info", info);
+
+    Init();
+}
+
 void PdfDocument::Init()
 {
     auto pagesRootObj = m_Catalog->GetDictionary().FindKey("Pages");
diff --git a/src/pdfmm/base/PdfDocument.h b/src/pdfmm/base/PdfDocument.h
index a1c78c2..8aa0f17 100644
--- a/src/pdfmm/base/PdfDocument.h
+++ b/src/pdfmm/base/PdfDocument.h
@@ -281,6 +281,10 @@ protected:
      */
     void Init();
 
+    /** Internal method for initializing a new document
+     */
+    void InitNew();
+
     /** Clear all internal variables
      *  and reset PdfDocument to an intial state.
      */
diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 725157f..ce82665 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -137,7 +137,19 @@ void PdfMemDocument::LoadFromDevice(const shared_ptr<InputStreamDevice>& device,
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
     this->Clear();
-    loadFromDevice(device, password);
+    try
+    {
+        loadFromDevice(device, password);
+    }
+    catch (...)
+    {
+        // Don't leave a document that is loaded just in part
+        this->Clear();
+        m_Version = PdfVersionDefault;
+        m_InitialVersion = PdfVersionDefault;
+        InitNew();
+        throw;
+    }
 }
 
 void PdfMemDocument::loadFromDevice(const shared_ptr<InputStreamDevice>& device, const string_view& password)
diff --git a/src/pdfmm/base/PdfObject.h b/src/pdfmm/base/PdfObject.h
index 5b7e4db..35431c6 100644
--- a/src/pdfmm/base/PdfObject.h
+++ b/src/pdfmm/base/PdfObject.h
@@ -37,6 +37,7 @@ class PDFMM_API PdfObject
     friend class PdfArray;
     friend class PdfDictionary;
     friend class PdfDocument;
+    friend class PdfWriter;
     friend class PdfObjectStream;
     friend class PdfDataContainer;
     friend class PdfObjectStreamParser;
diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 14faa18..2634695 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -565,7 +565,8 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
     utls::RecursionGuard guard;
 
     device.Seek(offset);
-    auto xrefObjTrailer = new PdfXRefStreamParserObject(m_Objects->GetDocument(), device, m_entries);
+    unique_ptr<PdfXRefStreamParserObject> xrefObjectTemp(new PdfXRefStreamParserObject(m_Objects->GetDocument(), device, m_entries));
+    auto xrefObjTrailer = xrefObjectTemp.get();
     xrefObjTrailer->SetMagicOffset(m_magicOffset);
     try
     {
@@ -574,20 +575,13 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
     catch (PdfError& ex)
     {
         PDFMM_PUSH_FRAME_INFO(ex, "The trailer was found in the file, but contains errors");
-        delete xrefObjTrailer;
         throw ex;
     }
 
-    unique_ptr<PdfXRefStreamParserObject> xrefObjectTemp;
     if (m_Trailer == nullptr)
-    {
-        m_Trailer.reset(xrefObjTrailer);
-    }
+        m_Trailer = std::move(xrefObjectTemp);
     else
-    {
-        xrefObjectTemp.reset(xrefObjTrailer);
         MergeTrailer(*xrefObjTrailer);
-    }
 
     if (readOnlyTrailer)
         return;
@@ -739,7 +733,9 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
                         }
                         catch (PdfError& e)
                         {
-                            if (m_IgnoreBrokenObjects)
+                            // NOTE: An object that the device fails to read is not broken
+                            if (m_IgnoreBrokenObjects && (e != PdfErrorCode::InvalidDeviceOperation
+                                || (size_t)entry.Offset >= m_FileSize))
                             {
                                 mm::LogMessage(PdfLogSeverity::Error, "Error while loading object {} {} R, Offset={}, Index={}",
                                     obj->GetIndirectReference().ObjectNumber(),
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 3762097..fd53ddb 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -137,9 +137,18 @@ void PdfWriter::Write(OutputStreamDevice& device)
 
         xRef->Write(device, m_buffer);
         m_XRefOffset = (int64_t)(xRef->GetOffset() + m_MagicOffset);
+
+        // Report also a failure in writing the last buffered bytes
+        device.Flush();
     }
-    catch (PdfError& e)
+    catch (...)
     {
+        // The changes have not been saved
+        for (auto obj : m_writtenDirtyObjects)
+            obj->SetDirty();
+
+        m_writtenDirtyObjects.clear();
+
         // P.Zent: Delete Encryption dictionary (cannot be reused)
         if (m_EncryptObj != nullptr)
         {
@@ -147,10 +156,11 @@ void PdfWriter::Write(OutputStreamDevice& device)
             m_EncryptObj = nullptr;
         }
 
-        PDFMM_PUSH_FRAME(e);
-        throw e;
+        throw;
     }
 
+    m_writtenDirtyObjects.clear();
+
     // P.Zent: Delete Encryption dictionary (cannot be reused)
     if (m_EncryptObj != nullptr)
     {
@@ -208,6 +218,10 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
         else
         {
             xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition() - m_MagicOffset);
+            // Writing resets the dirty flag
+            if (obj->IsDirty())
+                m_writtenDirtyObjects.push_back(obj);
+
             // Also make sure that we do not encrypt the encryption dictionary!
             obj->Write(device, m_WriteFlags, obj == m_EncryptObj ? nullptr : m_Encrypt.get(), m_buffer);
         }
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index f5649fa..12a9d2e 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -185,6 +185,7 @@ protected:
 
 protected:
     charbuff m_buffer;
+    std::vector<PdfObject*> m_writtenDirtyObjects;
 
 private:
     PdfIndirectObjectList* m_Objects;
diff --git a/src/pdfmm/base/PdfXRefStream.cpp b/src/pdfmm/base/PdfXRefStream.cpp
index ad53025..42d42a0 100644
--- a/src/pdfmm/base/PdfXRefStream.cpp
+++ b/src/pdfmm/base/PdfXRefStream.cpp
@@ -22,6 +22,13 @@ PdfXRefStream::PdfXRefStream(PdfWriter& writer) :
 {
 }
 
+PdfXRefStream::~PdfXRefStream()
+{
+    // Don't leave in the document an object that was not written
+    if (m_offset < 0)
+        GetWriter().GetObjects().RemoveObject(m_xrefStreamObj->GetIndirectReference());
+}
+
 uint64_t PdfXRefStream::GetOffset() const
 {
     if (m_offset < 0)
diff --git a/src/pdfmm/base/PdfXRefStream.h b/src/pdfmm/base/PdfXRefStream.h
index 266f268..2f3d417 100644
--- a/src/pdfmm/base/PdfXRefStream.h
+++ b/src/pdfmm/base/PdfXRefStream.h
@@ -35,6 +35,8 @@ public:
      */
     PdfXRefStream(PdfWriter& writer);
 
+    ~PdfXRefStream();
+
     uint64_t GetOffset() const override;
 
     bool ShouldSkipWrite(const PdfReference& ref) override;
-- 
2.43.0


From ea97a67696587efedd35333fc40654ed86aaaae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:52 +0000
Subject: [PATCH 65/66] fix: Text extraction follows ' and ", Tz, form matrices
 and transformations

The ' and " operators show the text on the next line, Tz was ignored, TJ
adjustments ignored it as well, form XObjects ignored their matrix, positions
and lengths of substrings and trimmed texts mixed transformed and raw lengths,
strings containing a white space anywhere were taken as beginning with one,
and only the first occurrence was looked at for whole word matching.
---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 176 +++++++++-------------
 1 file changed, 73 insertions(+), 103 deletions(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 657a156..22c4f45 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -64,14 +64,15 @@ public:
     StatefulString GetTrimmedBegin() const;
     StatefulString GetTrimmedEnd() const;
     double GetLengthRaw() const;
-    double GetLength() const;
-private:
-    vector<double> computeLengths(const vector<double>& rawLengths);
+    double GetLengthRaw(unsigned glyphCount) const;
+    /** Position of the glyph, or the end of the
+     * string if the index is the number of the glyphs
+     */
+    Vector2 GetGlyphPosition(unsigned glyphIndex) const;
 public:
     const string String;
     const TextState State;
     const vector<double> RawLengths;
-    const vector<double> Lengths;
     // Glyph position in the string
     const vector<unsigned> StringPositions;
     const Vector2 Position;
@@ -316,6 +317,12 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                             context.States.Current->PdfState.WordSpacing = content.Stack[2].GetReal();
                         }
 
+                        if (content.Operator == PdfOperator::Quote
+                            || content.Operator == PdfOperator::DoubleQuote)
+                        {
+                            context.TStar_Operator();
+                        }
+
                         if (decodeString(str, *context.States.Current, decoded, lengths, positions)
                             && decoded.length() != 0)
                         {
@@ -323,12 +330,6 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                                 std::move(lengths), std::move(positions)), true);
                         }
 
-                        if (content.Operator == PdfOperator::Quote
-                            || content.Operator == PdfOperator::DoubleQuote)
-                        {
-                            context.TStar_Operator();
-                        }
-
                         break;
                     }
                     // array TJ : Show one or more text strings
@@ -354,8 +355,9 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                                 // pg. 408, Pdf Reference 1.7: "The number is expressed in thousandths of a unit
                                 // of text space. [...] This amount is subtracted from from the current horizontal or
                                 // vertical coordinate, depending on the writing mode"
-                                // It must be scaled by the font size
-                                double space = (-obj.GetReal() / 1000) * context.States.Current->PdfState.FontSize;
+                                // It must be scaled by the font size and the horizontal scaling
+                                double space = (-obj.GetReal() / 1000) * context.States.Current->PdfState.FontSize
+                                    * context.States.Current->PdfState.FontScale;
                                 context.AdvanceSpace(space);
                             }
                             else
@@ -378,6 +380,12 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                         context.States.Current->PdfState.WordSpacing = content.Stack[0].GetReal();
                         break;
                     }
+                    // Tz : horizontal scaling
+                    case PdfOperator::Tz:
+                    {
+                        context.States.Current->PdfState.FontScale = content.Stack[0].GetReal() / 100;
+                        break;
+                    }
                     // q : Save the current graphics state
                     case PdfOperator::q:
                     {
@@ -426,6 +434,10 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                         context.States.GetSize()
                     });
                     context.States.Push();
+
+                    // The form space is mapped to the current user space
+                    context.States.Current->CTM = content.XObject->GetMatrix() * context.States.Current->CTM;
+                    context.States.Current->ComputeDependentState();
                 }
 
                 break;
@@ -619,8 +631,9 @@ void addEntryChunk(vector<PdfTextEntry> &textEntries, StringChunkList &chunks, c
                     {
                         // Compute substring translation and apply it
                         // TODO: Handle vertical scritps
-                        double substringTx = computeLength(strings, glyphAddresses, 0, lowerIndex - 1);
-                        textState.T_rm.Apply<Tx>(substringTx);
+                        auto& addr = glyphAddresses[lowerIndex];
+                        textState = strings[addr.StringIndex]->State;
+                        textState.T_rm.Apply<Tx>(strings[addr.StringIndex]->GetLengthRaw(addr.GlyphIndex));
                     }
                 }
             }
@@ -723,7 +736,6 @@ StatefulString::StatefulString(string&& str, const TextState& state,
     String(std::move(str)),
     State(state),
     RawLengths(std::move(lengths)),
-    Lengths(computeLengths(RawLengths)),
     StringPositions(std::move(positions)),
     Position(state.T_rm.GetTranslationVector()),
     IsWhiteSpace(utls::IsStringEmptyOrWhiteSpace(String))
@@ -765,7 +777,7 @@ StatefulString StatefulString::GetTrimmedBegin() const
             if (i + 1 == StringPositions.size() || StringPositions[i + 1] > trimmedLen)
                 break;
 
-            length += Lengths[i];
+            length += RawLengths[i];
             lowerIndex = i + 1;
         }
 
@@ -789,14 +801,10 @@ bool StatefulString::BeginsWithWhiteSpace() const
     auto& str = String;
     auto it = str.begin();
     auto end = str.end();
-    while (it != end)
-    {
-        char32_t cp = utf8::next(it, end);
-        if (utls::IsWhiteSpace(cp))
-            return true;
-    }
+    if (it == end)
+        return false;
 
-    return false;
+    return utls::IsWhiteSpace(utf8::next(it, end));
 }
 
 bool StatefulString::EndsWithWhiteSpace() const
@@ -830,38 +838,27 @@ StatefulString StatefulString::GetTrimmedEnd() const
         }
     }
     return StatefulString(std::move(trimmedStr), State,
-        { Lengths.begin(), Lengths.begin() + positionIndexLimit },
+        { RawLengths.begin(), RawLengths.begin() + positionIndexLimit },
         { StringPositions.begin(), StringPositions.begin() + positionIndexLimit });
 }
 
 double StatefulString::GetLengthRaw() const
 {
-    double length = 0;
-    for (unsigned i = 0; i < RawLengths.size(); i++)
-        length += RawLengths[i];
-
-    return length;
+    return GetLengthRaw((unsigned)RawLengths.size());
 }
 
-double StatefulString::GetLength() const
+double StatefulString::GetLengthRaw(unsigned glyphCount) const
 {
     double length = 0;
-    for (unsigned i = 0; i < Lengths.size(); i++)
-        length += Lengths[i];
+    for (unsigned i = 0; i < glyphCount; i++)
+        length += RawLengths[i];
 
     return length;
 }
 
-vector<double> StatefulString::computeLengths(const vector<double>& rawLengths)
+Vector2 StatefulString::GetGlyphPosition(unsigned glyphIndex) const
 {
-    // NOTE: the lengths are transformed accordingly to text state but
-    // are not CTM transformed
-    vector<double> ret;
-    ret.reserve(rawLengths.size());
-    for (unsigned i = 0; i < rawLengths.size(); i++)
-        ret.push_back((Vector2(rawLengths[i], 0) * State.CTM.GetScalingRotation()).GetLength());
-
-    return ret;
+    return Vector2(GetLengthRaw(glyphIndex), 0) * State.T_rm;
 }
 
 TextStateStack::TextStateStack()
@@ -958,7 +955,7 @@ void ExtractionContext::cm_Operator(double a, double b, double c, double d, doub
     // matrix (CTM) by concatenating the specified matrix
     Matrix cm = Matrix::FromCoefficients(a, b, c, d, e, f);
     States.Current->CTM = cm * States.Current->CTM;
-    States.Current->ComputeT_rm();
+    States.Current->ComputeDependentState();
 }
 
 void ExtractionContext::Tm_Operator(double a, double b, double c, double d, double e, double f)
@@ -1078,7 +1075,13 @@ void ExtractionContext::tryAddEntry(const StatefulString& currStr)
 
                     // Add "fake" space
                     if (!(prevString->EndsWithWhiteSpace() || currStr.BeginsWithWhiteSpace()))
-                        Chunk->push_back(StatefulString(" ", prevString->State, { distance }, { 0 }));
+                    {
+                        auto state = prevString->State;
+                        state.T_m.Apply<Tx>(prevString->GetLengthRaw());
+                        state.ComputeT_rm();
+                        double scale = (Vector2(1, 0) * state.T_rm.GetScalingRotation()).GetLength();
+                        Chunk->push_back(StatefulString(" ", state, { scale == 0 ? 0 : distance / scale }, { 0 }));
+                    }
                 }
             }
         }
@@ -1150,7 +1153,7 @@ void splitStringBySpaces(vector<StatefulString> &separatedStrings, const Statefu
         getSubstringIndices(str.StringPositions, lowerPos, upperPosLim, lowerPosIndex, upperPosLimIndex);
         double length = 0;
         for (unsigned i = lowerPosIndex; i < upperPosLimIndex; i++)
-            length += str.Lengths[i];
+            length += str.RawLengths[i];
 
         // Fixed string positions after split
         auto positions = vector<unsigned>(str.StringPositions.begin() + lowerPosIndex, str.StringPositions.begin() + upperPosLimIndex);
@@ -1158,7 +1161,7 @@ void splitStringBySpaces(vector<StatefulString> &separatedStrings, const Statefu
             positions[i] -= lowerPos;
 
         separatedStrings.push_back(StatefulString(std::move(separatedStr), state,
-            { str.Lengths.begin() + lowerPosIndex, str.Lengths.begin() + upperPosLimIndex },
+            { str.RawLengths.begin() + lowerPosIndex, str.RawLengths.begin() + upperPosLimIndex },
             std::move(positions)));
         lowerPos = previousPos;
         upperPosLim = (unsigned)str.String.length();
@@ -1251,13 +1254,13 @@ bool areEqual(double lhs, double rhs)
 
 void TextState::ComputeDependentState()
 {
-    ComputeSpaceLength();
     ComputeT_rm();
+    ComputeSpaceLength();
 }
 
 void TextState::ComputeSpaceLength()
 {
-    WordSpacingLength = (WordSpacingVectorRaw * T_m.GetScalingRotation()).GetLength();
+    WordSpacingLength = (WordSpacingVectorRaw * T_rm.GetScalingRotation()).GetLength();
 }
 
 void TextState::ComputeT_rm()
@@ -1307,73 +1310,40 @@ double computeLength(const vector<const StatefulString*>& strings, const vector<
     PDFMM_ASSERT(lowerIndex <= upperIndex);
     auto& fromAddr = glyphAddresses[lowerIndex];
     auto& toAddr = glyphAddresses[upperIndex];
-    if (fromAddr.StringIndex == toAddr.StringIndex)
-    {
-        // NOTE: Include the last glyph
-        auto str = strings[fromAddr.StringIndex];
-        double length = 0;
-        for (unsigned i = 0; i <= toAddr.GlyphIndex; i++)
-            length += str->Lengths[i];
 
-        return length;
-    }
-    else
-    {
-        auto fromStr = strings[fromAddr.StringIndex];
-        auto toStr = strings[toAddr.StringIndex];
-
-        // Advance the position before the first glyph
-        auto fromPosition = fromStr->Position;
-        for (unsigned i = 0; i < fromAddr.GlyphIndex; i++)
-            fromPosition += Vector2(fromStr->Lengths[i], 0);
-
-        // NOTE: Include the last glyph
-        auto toPosition = toStr->Position;
-        for (unsigned i = 0; i <= toAddr.GlyphIndex; i++)
-            toPosition += Vector2(toStr->Lengths[i], 0);
-
-        return (fromPosition - toPosition).GetLength();
-    }
+    // NOTE: Include the last glyph
+    auto fromPosition = strings[fromAddr.StringIndex]->GetGlyphPosition(fromAddr.GlyphIndex);
+    auto toPosition = strings[toAddr.StringIndex]->GetGlyphPosition(toAddr.GlyphIndex + 1);
+    return (fromPosition - toPosition).GetLength();
 }
 
 // Verify if the string matches the pattern and verify
 // presence of delimiters for whole word match
 bool isMatchWholeWordSubstring(const string_view& str, const string_view& pattern, size_t& matchPos)
 {
-    bool prevDelimiter;
-    auto found = str.find(pattern);
-    string_view::const_iterator it;
-    string_view::const_iterator end;
-    char32_t cp;
-    if (found == string_view::npos)
-        goto NoMatch;
-
-    it = str.begin();
-    end = str.begin() + found;
-
-    prevDelimiter = true;
-    while (it != end)
+    size_t found = 0;
+    while ((found = str.find(pattern, found)) != string::npos)
     {
-        cp = utf8::unchecked::next(it);
-        prevDelimiter = utls::IsStringDelimiter(cp);
-    }
-
-    if (!prevDelimiter)
-        goto NoMatch;
+        bool prevDelimiter = true;
+        auto it = str.begin();
+        auto end = str.begin() + found;
+        while (it != end)
+            prevDelimiter = utls::IsStringDelimiter((char32_t)utf8::unchecked::next(it));
+
+        it = str.begin() + found + pattern.length();
+        if (prevDelimiter && (it == str.end()
+            || utls::IsStringDelimiter((char32_t)utf8::unchecked::next(it))))
+        {
+            matchPos = found;
+            return true;
+        }
 
-    it = str.begin() + found + pattern.length();
-    end = str.end();
-    if (it != end)
-    {
-        cp = utf8::unchecked::next(it);
-        if (!utls::IsStringDelimiter(cp))
-            goto NoMatch;
+        // Move to the following character
+        it = str.begin() + found;
+        utf8::unchecked::next(it);
+        found = it - str.begin();
     }
 
-    matchPos = found;
-    return true;
-
-NoMatch:
     matchPos = string_view::npos;
     return false;
 }
-- 
2.43.0


From f0786b970cf7fb579a9cea7b5b4b7309560820bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:52 +0000
Subject: [PATCH 66/66] fix: Apply word spacing to scanned single byte spaces

---
 src/pdfmm/base/PdfFont.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index 8ad5a51..2cd0749 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -351,6 +351,12 @@ bool PdfFont::TryScanString(const PdfString& encodedStr, const PdfTextState& sta
             success = false;
 
         length = getGlyphLength(GetCIDLengthRaw(cid.Id), state, false);
+
+        // ISO 32000-1:2008 9.3.3 "Word spacing shall be applied to every
+        // occurrence of the single-byte character code 32"
+        if (cid.Unit.Code == ' ' && cid.Unit.CodeSpaceSize == 1)
+            length += state.WordSpacing * state.FontScale;
+
         lengths.push_back(length);
         positions.push_back(prevOffset);
         prevOffset = (unsigned)utf8str.length();
-- 
2.43.0

