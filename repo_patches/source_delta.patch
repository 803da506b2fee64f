From ec99e52ec73bdc48cb1bb5c00e4796f1ed5f7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 001/106] fix: TransparentQueue::swap() can not be instantiated

---
 include/bcl/transparent_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 64d367d..65775ec 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -177,7 +177,9 @@ public:
     if (mIsSingle) {
       if (TQ.mIsSingle) {
         std::swap(mValue, TQ.mValue);
-        std::swap(mIsEmpty, TQ.mIsEmpty);
+        bool IsEmpty = mIsEmpty;
+        mIsEmpty = TQ.mIsEmpty;
+        TQ.mIsEmpty = IsEmpty;
       } else {
         Ty *Tmp = mValue;
         mIsSingle = false;
@@ -188,14 +190,14 @@ public:
       }
     } else {
       if (TQ.mIsSingle) {
-        Ty *Tmp = TQ.Value;
+        Ty *Tmp = TQ.mValue;
         TQ.mIsSingle = false;
         TQ.mQueue = mQueue;
         mIsSingle = true;
         mIsEmpty = TQ.mIsEmpty;
         mValue = Tmp;
       } else {
-        mQueue->swap(TQ.mQueue);
+        mQueue->swap(*TQ.mQueue);
       }
     }
   }
-- 
2.43.0


From a2dcdb6b4c65195fc445d31041b1c19853c3ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 002/106] fix: TransparentQueue assignments return nothing and
 leak, moved-from queue is not empty

---
 include/bcl/transparent_queue.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 65775ec..0ebc88b 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <cstring>
 #include <queue>
+#include <utility>
 
 namespace bcl {
 /// \brief Simple queue that store pointers.
@@ -67,12 +68,9 @@ public:
 
   /// Copy assignment.
   TransparentQueue & operator=(const TransparentQueue &TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    if (mIsSingle)
-      mValue = TQ.mValue;
-    else
-      mQueue = new Container(*TQ.mQueue);
+    TransparentQueue Tmp(TQ);
+    swap(Tmp);
+    return *this;
   }
 
   /// Move constructor.
@@ -81,15 +79,14 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
   }
 
   /// Move assignment.
   TransparentQueue & operator=(TransparentQueue &&TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
-    TQ.mIsSingle = true;
-    TQ.mIsEmpty = true;
+    TransparentQueue Tmp(std::move(TQ));
+    swap(Tmp);
+    return *this;
   }
 
   /// Removes allocated memory if it is necessary.
-- 
2.43.0


From 9c4adc7d431cd53e561a3ef7254a495b2f88e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 003/106] fix: TransparentQueue::emplace() inserts a stale null
 into an empty queue

---
 include/bcl/transparent_queue.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 0ebc88b..0a44fdf 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -152,13 +152,7 @@ public:
 
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
-    if (mIsSingle) {
-      mIsSingle = false;
-      Ty *Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
-    }
-    mQueue->emplace(Args...);
+    push(value_type(std::forward<ArgTy>(Args)...));
   }
 
   /// \brief Exchanges the contents of the queue with those of other.
-- 
2.43.0


From 734876243b791664ed33e1b6e90a068bc1cda303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 004/106] fix: Diagnostic releases arrays with a scalar delete

---
 include/bcl/Diagnostic.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 00bf223..275d48a 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -37,7 +37,7 @@ namespace bcl {
 ///
 /// All diagnostics are represented as a character string.
 class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char>> Collection;
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
 
 public:
   typedef const char * value_type;
@@ -203,17 +203,17 @@ public:
       return false;
     }
     auto Size = PreSize + ErrSize + 1;
-    char *Buf = new char[Size];
-    if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
-        std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+    std::unique_ptr<char[]> Buf(new char[Size]);
+    if (std::snprintf(Buf.get(), PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
+        std::snprintf(Buf.get() + PreSize, ErrSize + 1, Fmt, A...) < 0) {
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char>(Buf));
+    mDiagnostics.push_back(std::move(Buf));
     return true;
   }
 private:
-  std::unique_ptr<const char> mKind;
+  std::unique_ptr<const char[]> mKind;
   Collection mDiagnostics;
   size_type mInternalError = 0;
 };
-- 
2.43.0


From a9708a685f8d0b1445aea30ee865e42901b0764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 005/106] fix: json: escaped characters in a string are not
 recognized by the lexer

---
 include/bcl/Json.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aae7f4e..6d4306a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -357,7 +357,7 @@ enum class Token : char {
   COMMA = ',',
   COLON = ':',
   QUOTE = '"',
-  ESCAPE = '/',
+  ESCAPE = '\\',
   DOT = '.',
   PLUS = '+',
   MINUS = '-',
@@ -468,11 +468,14 @@ public:
     mStart = mEnd = mNext;
     if (isQuote(mJSON[mNext])) {
       for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isQuote(mJSON[mNext]) && !isEscape(mJSON[mNext - 1])) {
+        if (isQuote(mJSON[mNext])) {
           mEnd = mNext++;
           mToken = Token::IDENTIFIER;
           return true;
         }
+        // The next character is escaped, so it does not end the string.
+        if (isEscape(mJSON[mNext]))
+          ++mNext;
       }
       mErrors.insert(JSON_ERROR(1), mStart);
       mStart = mEnd = mNext = mJSON.size();
-- 
2.43.0


From a31cd4377714dc1c65aee5b61113b031a9776723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 006/106] fix: json: unescape() reads out of bounds and
 processes incorrectly an escape sequence at the end of a string

---
 include/bcl/Json.h | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 6d4306a..f67476e 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1043,15 +1043,11 @@ private:
 
 template<> struct Traits<std::string> {
   inline static String unescape(const String &Str) {
-    if (Str.size() < 2)
-      return Str;
     std::string Res;
     Res.reserve(Str.length());
-    auto I = Str.begin(), EI = Str.end() - 1;
-    while (I != EI) {
-      if (*I != '\\') {
+    for (auto I = Str.begin(), EI = Str.end(); I != EI; ++I) {
+      if (*I != '\\' || I + 1 == EI) {
         Res += *I;
-        ++I;
         continue;
       }
       switch (*(++I)) {
@@ -1060,13 +1056,9 @@ template<> struct Traits<std::string> {
         case 'v': Res += "\v"; break;
         case 'f': Res += "\f"; break;
         case 'r': Res += "\r"; break;
-        case '"': case '\\': Res += *I; break;
-        default: continue;
+        default: Res += *I; break;
       }
-      ++I;
     }
-    if (I == EI)
-      Res += Str.back();
     return Res;
   }
   inline static Position escape(String &JSON, Position Pos) {
-- 
2.43.0


From de8494bed97829f589a3c84f4285b9b1ed563766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 007/106] fix: json: \b and \uXXXX are not supported and
 control characters are not escaped

---
 include/bcl/Json.h | 56 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index f67476e..d395ee9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -227,7 +227,9 @@
 #include "cell.h"
 #include "Diagnostic.h"
 #include "utility.h"
+#include <algorithm>
 #include <cctype>
+#include <cstdio>
 #include <map>
 #include <memory>
 #include <optional>
@@ -1042,6 +1044,30 @@ private:
 };
 
 template<> struct Traits<std::string> {
+  /// \brief Evaluates 4 hexadecimal digits which follow a character I.
+  ///
+  /// \return Evaluated number or -1 if there are no such digits. On success `I`
+  /// refers to the last digit, otherwise it is not changed.
+  inline static long parseHex(
+      String::const_iterator &I, String::const_iterator EI) {
+    if (EI - I < 5 || !std::all_of(I + 1, I + 5,
+                        [](unsigned char C) { return std::isxdigit(C); }))
+      return -1;
+    auto Code = std::stol(String(I + 1, I + 5), nullptr, 16);
+    I += 4;
+    return Code;
+  }
+  /// Appends to a string a specified character in UTF-8 encoding.
+  inline static void appendUTF8(String &Str, long Code) {
+    if (Code < 0x80) {
+      Str += static_cast<char>(Code);
+      return;
+    }
+    int Size = Code < 0x800 ? 1 : Code < 0x10000 ? 2 : 3;
+    Str += static_cast<char>((0xF0 << (3 - Size)) | (Code >> (6 * Size)));
+    while (Size-- > 0)
+      Str += static_cast<char>(0x80 | ((Code >> (6 * Size)) & 0x3F));
+  }
   inline static String unescape(const String &Str) {
     std::string Res;
     Res.reserve(Str.length());
@@ -1056,6 +1082,24 @@ template<> struct Traits<std::string> {
         case 'v': Res += "\v"; break;
         case 'f': Res += "\f"; break;
         case 'r': Res += "\r"; break;
+        case 'b': Res += "\b"; break;
+        case 'u': {
+          auto Code = parseHex(I, EI);
+          if (Code >= 0xD800 && Code <= 0xDBFF && EI - I > 2 &&
+              *(I + 1) == '\\' && *(I + 2) == 'u') {
+            auto Itr = I + 2;
+            auto Low = parseHex(Itr, EI);
+            if (Low >= 0xDC00 && Low <= 0xDFFF) {
+              Code = 0x10000 + ((Code - 0xD800) << 10) + (Low - 0xDC00);
+              I = Itr;
+            }
+          }
+          if (Code < 0)
+            Res += *I;
+          else
+            appendUTF8(Res, Code);
+          break;
+        }
         default: Res += *I; break;
       }
     }
@@ -1065,11 +1109,19 @@ template<> struct Traits<std::string> {
     switch (JSON[Pos]) {
       case '\n': JSON.replace(Pos, 1, "n"); break;
       case '\t': JSON.replace(Pos, 1, "t"); break;
-      case '\v': JSON.replace(Pos, 1, "v"); break;
       case '\f': JSON.replace(Pos, 1, "f"); break;
       case '\r': JSON.replace(Pos, 1, "r"); break;
       case '"': case '\\': break;
-      default: return Pos;
+      default: {
+        auto Ch = static_cast<unsigned char>(JSON[Pos]);
+        if (Ch >= 0x20)
+          return Pos;
+        // There is no short form for other control characters.
+        char Code[7];
+        std::snprintf(Code, sizeof(Code), "\\u%04x", Ch);
+        JSON.replace(Pos, 1, Code);
+        return Pos + 5;
+      }
     }
     JSON.insert(Pos, "\\");
     return Pos + 1;
-- 
2.43.0


From c91b079d665de5cf000cbd03b2b40f60ee73ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 008/106] fix: json: characters 'i', 'n' and 'k' without quotes
 are treated as identifiers, numbers and keywords

---
 include/bcl/Json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index d395ee9..7fc1ef2 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -518,7 +518,9 @@ public:
         return true;
     }
     mEnd = mNext;
-    mToken = static_cast<Token>(mJSON[mStart]);
+    // Letters are reserved to encode tokens which are not a single character.
+    if (!std::isalpha(mJSON[mStart]))
+      mToken = static_cast<Token>(mJSON[mStart]);
     ++mNext;
     return true;
   }
-- 
2.43.0


From 956682948ef653789733a104c386982da875606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 009/106] fix: json: a single character is parsed and unparsed
 incorrectly

---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 7fc1ef2..8c43448 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1154,12 +1154,14 @@ template<> struct Traits<char> {
       Lex.json().substr(Value.first, Value.second - Value.first + 1));
     if (Tmp.size() != 1)
       return false;
-    Dest = Lex.json()[Tmp.front()];
+    Dest = Tmp.front();
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
     auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
+    JSON += '"';
+    JSON += Obj;
+    JSON += '"';
     Traits<std::string>::escape(JSON, I);
   }
 };
-- 
2.43.0


From f8e85ebcceabd31b796062acb86e72e2d62efaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 010/106] fix: json: arrays are released with a scalar delete
 if an error occurs

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 8c43448..a99162a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1356,7 +1356,7 @@ template<> struct Traits<char *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
@@ -1369,7 +1369,7 @@ template<> struct Traits<char *> {
         TmpDest[Unescaped.length()] = '\0';
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     }
@@ -1432,7 +1432,7 @@ template<class Ty> struct Traits<Ty *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
-- 
2.43.0


From 8bba9c73bcc9537f95261fbbc3af9e43c070150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 011/106] fix: json: conversion of an optional value ignores
 errors and does not preserve the string "null"

---
 include/bcl/Json.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a99162a..dc6c0cd 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1896,15 +1896,21 @@ template<class T> struct Traits<std::optional<T>> {
     "Underlining type must be copy assignable!");
   static bool parse(std::optional<T> &Dest, ::json::Lexer &Lex) noexcept {
     try {
-      std::string Str;
-      if (Lex.isKeyword(Keyword::NO_VALUE) ||
-          Traits<std::string>::parse(Str, Lex) &&
-              Str == toString(Keyword::NO_VALUE)) {
+      if (Lex.isKeyword(Keyword::NO_VALUE)) {
         Dest.reset();
       } else {
         T Tmp;
-        Traits<T>::parse(Tmp, Lex);
-        Dest = std::move(Tmp);
+        if (Traits<T>::parse(Tmp, Lex)) {
+          Dest = std::move(Tmp);
+        } else {
+          // A quoted keyword is also accepted if it is not a value of type T.
+          std::string Str;
+          if (!Lex.is(Token::IDENTIFIER) ||
+              !Traits<std::string>::parse(Str, Lex) ||
+              Str != toString(Keyword::NO_VALUE))
+            return false;
+          Dest.reset();
+        }
       }
     }
     catch (...) {
-- 
2.43.0


From 188d8d2e91b6e452b64b537e063756ec1df309b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 012/106] fix: json: a string is successfully obtained from a
 token which is not a value or from an empty document

---
 include/bcl/Json.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index dc6c0cd..5c75ace 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -768,8 +768,7 @@ template<class... Objects> class Parser {
     /// Converts JSON string to a specified Ty.
     template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
       Lex.resetPosition();
-      Lex.goToNext();
-      if (!Traits<Ty>::parse(Obj, Lex)) {
+      if (!Lex.goToNext() || !Traits<Ty>::parse(Obj, Lex)) {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
@@ -1130,6 +1129,8 @@ template<> struct Traits<std::string> {
   }
   inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
     try {
+      if (!Lex.checkValue())
+        return false;
       auto Value = Lex.discardQuote();
       Dest = unescape(
         Lex.json().substr(Value.first, Value.second - Value.first + 1));
@@ -1149,6 +1150,8 @@ template<> struct Traits<std::string> {
 
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
+    if (!Lex.checkValue())
+      return false;
     auto Value = Lex.discardQuote();
     auto Tmp = Traits<std::string>::unescape(
       Lex.json().substr(Value.first, Value.second - Value.first + 1));
@@ -1361,6 +1364,8 @@ template<> struct Traits<char *> {
       }
     } else {
       try {
+        if (!Lex.checkValue())
+          return false;
         auto Value = Lex.discardQuote();
         auto Unescaped = Traits<std::string>::unescape(
           Lex.json().substr(Value.first, Value.second - Value.first + 1));
-- 
2.43.0


From d5f4b5675e3b21a6fe0213dc222850cc2038e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 013/106] fix: json: integers which are out of range or are
 followed by other characters are accepted

---
 include/bcl/Json.h | 76 ++++++++++++++--------------------------------
 1 file changed, 22 insertions(+), 54 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 5c75ace..b884711 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -229,6 +229,7 @@
 #include "utility.h"
 #include <algorithm>
 #include <cctype>
+#include <charconv>
 #include <cstdio>
 #include <map>
 #include <memory>
@@ -1169,17 +1170,24 @@ template<> struct Traits<char> {
   }
 };
 
+namespace detail {
+/// Converts a currently evaluated value to an integer, the whole value
+/// must be an integral number which is representable in a specified type.
+template<class Ty> bool parseNumber(Ty &Dest, Lexer &Lex) noexcept {
+  std::string Str;
+  if (!Traits<std::string>::parse(Str, Lex))
+    return false;
+  auto First = Str.data(), Last = Str.data() + Str.size();
+  if (Str.size() > 1 && Str[0] == '+' && Str[1] != '-')
+    ++First;
+  auto Res = std::from_chars(First, Last, Dest);
+  return Res.ec == std::errc() && Res.ptr == Last;
+}
+}
+
 template<> struct Traits<int> {
   inline static bool parse(int &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoi(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseNumber(Dest, Lex);
   }
   inline static void unparse(String &JSON, int Obj) {
     JSON += std::to_string(Obj);
@@ -1188,15 +1196,7 @@ template<> struct Traits<int> {
 
 template<> struct Traits<long> {
   inline static bool parse(long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stol(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseNumber(Dest, Lex);
   }
   inline static void unparse(String &JSON, long Obj) {
     JSON += std::to_string(Obj);
@@ -1205,15 +1205,7 @@ template<> struct Traits<long> {
 
 template<> struct Traits<long long> {
   inline static bool parse(long long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoll(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseNumber(Dest, Lex);
   }
   inline static void unparse(String &JSON, long long Obj) {
     JSON += std::to_string(Obj);
@@ -1222,15 +1214,7 @@ template<> struct Traits<long long> {
 
 template<> struct Traits<unsigned> {
   inline static bool parse(unsigned &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseNumber(Dest, Lex);
   }
   inline static void unparse(String &JSON, unsigned Obj) {
     JSON += std::to_string(Obj);
@@ -1239,15 +1223,7 @@ template<> struct Traits<unsigned> {
 
 template<> struct Traits<unsigned long> {
   inline static bool parse(unsigned long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoul(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseNumber(Dest, Lex);
   }
   inline static void unparse(String &JSON, unsigned long Obj) {
     JSON += std::to_string(Obj);
@@ -1256,15 +1232,7 @@ template<> struct Traits<unsigned long> {
 
 template<> struct Traits<unsigned long long> {
   inline static bool parse(unsigned long long &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoull(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseNumber(Dest, Lex);
   }
   inline static void unparse(String &JSON, unsigned long long Obj) {
     JSON += std::to_string(Obj);
-- 
2.43.0


From 555ffdf079a9c6fbd54aa61fb961b597e3710699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 014/106] fix: json: floating point numbers lose precision,
 exponent is not supported

---
 include/bcl/Json.h | 61 +++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b884711..d16bcdd 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -230,7 +230,10 @@
 #include <algorithm>
 #include <cctype>
 #include <charconv>
+#include <cmath>
 #include <cstdio>
+#include <cstdlib>
+#include <limits>
 #include <map>
 #include <memory>
 #include <optional>
@@ -497,6 +500,17 @@ public:
           break;
         }
       }
+      // Parse exponent, if it exists.
+      if (mNext < mJSON.size() && (mJSON[mNext] == 'e' || mJSON[mNext] == 'E')) {
+        auto Pos = mNext + 1;
+        if (Pos < mJSON.size() && isSign(mJSON[Pos]))
+          ++Pos;
+        if (Pos < mJSON.size() && std::isdigit(mJSON[Pos])) {
+          mIsIntegral = false;
+          for (; Pos < mJSON.size() && std::isdigit(mJSON[Pos]); ++Pos);
+          mNext = Pos;
+        }
+      }
       mNext = mNext < mJSON.size() ? mNext : mJSON.size();
       mEnd = mNext - 1;
       return true;
@@ -1239,37 +1253,44 @@ template<> struct Traits<unsigned long long> {
   }
 };
 
+namespace detail {
+/// Converts a currently evaluated value to a floating point number, the whole
+/// value must be a finite number which does not overflow a specified type.
+template<class Ty> bool parseFloatingPoint(Ty &Dest, Lexer &Lex,
+    Ty (*Convert)(const char *, char **)) noexcept {
+  std::string Str;
+  if (!Traits<std::string>::parse(Str, Lex) || Str.empty() ||
+      std::isspace(Str.front()))
+    return false;
+  char *End = nullptr;
+  Dest = Convert(Str.c_str(), &End);
+  return End == Str.c_str() + Str.size() && std::isfinite(Dest);
+}
+
+/// Stores a floating point number in a JSON string without loss of precision.
+template<class Ty> void unparseFloatingPoint(String &JSON, Ty Obj) {
+  char Buf[64];
+  std::snprintf(Buf, sizeof(Buf), "%.*g",
+    std::numeric_limits<Ty>::max_digits10, Obj);
+  JSON += Buf;
+}
+}
+
 template<> struct Traits<float> {
   inline static bool parse(float &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stof(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseFloatingPoint(Dest, Lex, std::strtof);
   }
   inline static void unparse(String &JSON, float Obj) {
-    JSON += std::to_string(Obj);
+    detail::unparseFloatingPoint(JSON, Obj);
   }
 };
 
 template<> struct Traits<double> {
   inline static bool parse(double &Dest, Lexer &Lex) noexcept {
-    try {
-      std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stod(Str);
-    }
-    catch (...) {
-      return false;
-    }
-    return true;
+    return detail::parseFloatingPoint(Dest, Lex, std::strtod);
   }
   inline static void unparse(String &JSON, double Obj) {
-    JSON += std::to_string(Obj);
+    detail::unparseFloatingPoint(JSON, Obj);
   }
 };
 
-- 
2.43.0


From 23c95bc5420a1020729f5e06a2ac0151ab111b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 015/106] fix: json: illegal keys of maps are accepted and lead
 to usage of uninitialized keys

---
 include/bcl/Json.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index d16bcdd..a58978a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -627,6 +627,7 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mStates.pop();
   }
 
   /// \brief Returns start position of a current token in the JSON string.
@@ -1598,6 +1599,8 @@ template<class KeyTy, class Ty, class Compare, class Allocator>
 struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
   typedef std::map<KeyTy, Ty, Compare, Allocator> MapTy;
   inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACE))
+      return false;
     return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
   }
   inline static bool parse(MapTy &Dest, Lexer &Lex,
@@ -1605,8 +1608,12 @@ struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsOk = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsOk) {
+      Lex.errors().insert(JSON_ERROR(9), Key.first);
+      return false;
+    }
     auto Pair = Dest.emplace(KeyValue, Ty());
     if (!Pair.second) {
       Lex.errors().insert(JSON_ERROR(8), Lex.start());
@@ -1651,6 +1658,8 @@ template<class KeyTy, class Ty, class Compare, class Allocator>
 struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
   typedef std::multimap<KeyTy, Ty, Compare, Allocator> MapTy;
   inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACE))
+      return false;
     return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
   }
   inline static bool parse(MapTy &Dest, Lexer &Lex,
@@ -1658,8 +1667,12 @@ struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsOk = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsOk) {
+      Lex.errors().insert(JSON_ERROR(9), Key.first);
+      return false;
+    }
     auto Itr = Dest.emplace(KeyValue, Ty());
     if (Itr == Dest.end())
       return false;
-- 
2.43.0


From 7e587a5b3f7e29907c0366f0c87cc1fc1f55eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 016/106] fix: json: identifier of an object is not found after
 a compound value, unknown identifier is not reported

---
 include/bcl/Json.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a58978a..322c5d3 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -804,12 +804,16 @@ template<class... Objects> class Parser {
     template<class Ty> void operator()() {
       if (Ty::name() != mName)
         return;
+      mIsFound = true;
       auto Obj = std::unique_ptr<Ty>(new Ty);
       if (!parse(*Obj, mLex))
         return;
       mObject = std::move(Obj);
     }
 
+    /// Returns true if there is a type with a specified name.
+    bool isFound() const noexcept { return mIsFound; }
+
     /// Returns unique pointer to created object or nullptr.
     std::unique_ptr<Object> stealObject() noexcept {
       return std::move(mObject);
@@ -818,6 +822,7 @@ template<class... Objects> class Parser {
   private:
     Object::ObjectName mName;
     Lexer &mLex;
+    bool mIsFound = false;
     std::unique_ptr<Object> mObject;
   };
 
@@ -990,9 +995,12 @@ public:
   std::unique_ptr<Object> parse() {
     if (!parseName())
       return nullptr;
-    ParseFunctor F(
-      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
+    auto Name =
+      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1);
+    ParseFunctor F(Name, mLex);
     ObjectTypeList::for_each_type(F);
+    if (!F.isFound())
+      mLex.errors().insert(JSON_ERROR(3), mNameStart, Name.c_str());
     return F.stealObject();
   }
 
@@ -1025,7 +1033,9 @@ private:
     if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
       return false;
     while (mLex.goToNext()) {
-      if (!mLex.is(Token::IDENTIFIER))
+      if (mLex.is(Token::RIGHT_BRACE))
+        break;
+      if (!mLex.checkIdentifier())
         return false;
       bool IsName = (mLex.json().compare(
         mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
@@ -1039,13 +1049,15 @@ private:
         mNameEnd = mLex.end();
         return true;
       }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
+      if (mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) {
+        if (!mLex.skipInternal())
+          return false;
+      } else if (!mLex.checkValue()) {
         return false;
+      }
       if (!mLex.goToNext())
         return false;
-      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
+      if (mLex.is(Token::RIGHT_BRACE))
         break;
       if (!mLex.checkSpecial(Token::COMMA))
         return false;
-- 
2.43.0


From 187de814db2ea808f0aadebbea77f369f0173cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 017/106] fix: json: unknown field of a record with a compound
 value is not skipped

---
 include/bcl/Json.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 322c5d3..77997b9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1749,16 +1749,21 @@ public:
           mKey.first + 1, mKey.second - mKey.first - 1 ,
           CellTraits<CellKey>::name()) != 0)
       return;
+    mIsFound = true;
     mHasError = !CellTraits<CellKey>::parse(
       Cell->template value<CellKey>(), mLex);
   }
 
   /// Returns true if errors have been occurred during conversion.
   bool hasError() const noexcept { return mHasError; }
+
+  /// Returns true if there is a cell with a specified key.
+  bool isFound() const noexcept { return mIsFound; }
 private:
   Lexer &mLex;
   std::pair<Position, Position> mKey;
   bool mHasError;
+  bool mIsFound = false;
 };
 
 /// This functor unparses JSON object represented as a bcl::StaticMap. It should
@@ -1803,6 +1808,9 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
       std::pair<Position, Position> Key) {
     detail::ParseCellFunctor Parse(Key, Lex);
     Dest.for_each(Parse);
+    if (!Parse.isFound() &&
+        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)))
+      return Lex.skipInternal();
     return !Parse.hasError();
   }
   inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-- 
2.43.0


From 3ed448680e64459d717390526c99c92ee0866b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 018/106] fix: json: escape sequences in names of fields are
 not processed

---
 include/bcl/Json.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 77997b9..102c180 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -995,8 +995,8 @@ public:
   std::unique_ptr<Object> parse() {
     if (!parseName())
       return nullptr;
-    auto Name =
-      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1);
+    auto Name = unescape(
+      mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1));
     ParseFunctor F(Name, mLex);
     ObjectTypeList::for_each_type(F);
     if (!F.isFound())
@@ -1037,8 +1037,8 @@ private:
         break;
       if (!mLex.checkIdentifier())
         return false;
-      bool IsName = (mLex.json().compare(
-        mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
+      bool IsName = (unescape(mLex.json().substr(
+        mLex.start() + 1, mLex.end() - mLex.start() - 1)) == getNameKey());
       if (!mLex.goToNext() || !mLex.checkSpecial(Token::COLON) ||
           !mLex.goToNext())
         return false;
@@ -1065,6 +1065,9 @@ private:
     mLex.errors().insert(JSON_ERROR(3), mLex.json().size(), getNameKey());
     return false;
   }
+
+  /// Replaces escape sequences in a specified string.
+  static String unescape(const String &Str);
 private:
   Lexer mLex;
   Position mNameStart = 0;
@@ -1176,6 +1179,11 @@ template<> struct Traits<std::string> {
   }
 };
 
+template<class... Objects>
+String Parser<Objects...>::unescape(const String &Str) {
+  return Traits<std::string>::unescape(Str);
+}
+
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
     if (!Lex.checkValue())
@@ -1745,9 +1753,9 @@ public:
   /// for example '{'.
   template<class CellTy> void operator()(CellTy *Cell) {
     typedef typename CellTy::CellKey CellKey;
-    if (mLex.json().compare(
-          mKey.first + 1, mKey.second - mKey.first - 1 ,
-          CellTraits<CellKey>::name()) != 0)
+    if (Traits<std::string>::unescape(mLex.json().substr(
+          mKey.first + 1, mKey.second - mKey.first - 1)) !=
+          CellTraits<CellKey>::name())
       return;
     mIsFound = true;
     mHasError = !CellTraits<CellKey>::parse(
-- 
2.43.0


From 39b43958461c61a690b98eedbfd55674534cd8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 019/106] fix: json: arrays with duplicate and missing indexes
 are accepted

---
 include/bcl/Json.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 102c180..b90d765 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1397,8 +1397,8 @@ template<> struct Traits<char *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<char>::parse(Dest[Idx], Lex);
     } else {
       return Traits<char>::parse(Dest[Key.second], Lex);
@@ -1471,8 +1471,8 @@ template<class Ty> struct Traits<Ty *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
@@ -1531,8 +1531,8 @@ struct Traits<std::vector<Ty, Allocator>> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
@@ -1834,6 +1834,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   Lex.storePosition();
   Position MaxIdx = 0;
   Position Count = 0;
+  std::set<unsigned long long> Indexes;
   Token Last;
   if (Lex.is(Token::LEFT_BRACKET))
     Last = Token::RIGHT_BRACKET;
@@ -1855,6 +1856,10 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
       unsigned long long Idx;
       if (!Traits<unsigned long long>::parse(Idx, Lex))
         return std::make_tuple(0, 0, false);
+      if (!Indexes.insert(Idx).second) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return std::make_tuple(0, 0, false);
+      }
       MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
       if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
           !Lex.goToNext())
-- 
2.43.0


From 1b7a106f23319461167c073fb9c49258d6d20659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 020/106] fix: json: white spaces after a document are not
 accepted, trailing characters are not always reported

---
 include/bcl/Json.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b90d765..3222944 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -253,6 +253,7 @@
 #define JSON_ERROR_7 "uninitialized elements in array"
 #define JSON_ERROR_8 "target object type does not support duplicate of keys"
 #define JSON_ERROR_9 "illegal value"
+#define JSON_ERROR_10 "unexpected character '%c' end of string expected"
 #define JSON_ERROR(C) C, JSON_ERROR_##C
 
 #define JSON_OBJECT_BEGIN(Object_) \
@@ -788,9 +789,9 @@ template<class... Objects> class Parser {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
-      if (Lex.next() < Lex.json().size()) {
-        Lex.goToNext();
-        Lex.checkSpecial(Token::COMMA);
+      auto Pos = Lex.json().find_first_not_of(" \t\n\v\f\r", Lex.next());
+      if (Pos != String::npos) {
+        Lex.errors().insert(JSON_ERROR(10), Pos, Lex.json()[Pos]);
         return false;
       }
       return true;
-- 
2.43.0


From 1c1b451a928bfd87947eb6d1ec99f88a232c98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 021/106] fix: json: diagnostics which contain several words
 are not parsed, memory is leaked

---
 include/bcl/Json.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 3222944..eb7c4fb 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1893,23 +1893,23 @@ template<> struct Traits<bcl::Diagnostic> {
   }
   inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
     std::pair<Position, Position>) {
-    const char *Msg;
-    if (!Traits<const char *>::parse(Msg, Lex))
+    std::string Msg;
+    if (!Traits<std::string>::parse(Msg, Lex))
       return false;
-    char *Kind = new char[std::strlen(Msg) + 1];
-    char *Buf = new char[std::strlen(Msg) + 1];
+    std::string Prefix(Dest.getKind());
+    Prefix += " C";
     std::size_t Code;
     std::uintmax_t Pos;
-    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
-    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
-        !Dest.insert(Code, "%s", Pos, Buf)) {
+    int Size = 0;
+    if (Msg.compare(0, Prefix.size(), Prefix) != 0 ||
+        std::sscanf(Msg.c_str() + Prefix.size(), "%zu(%ju):%n",
+          &Code, &Pos, &Size) != 2 ||
+        Size == 0 || Msg[Prefix.size() + Size] != ' ' ||
+        !Dest.insert(Code, "%s", Pos,
+          Msg.c_str() + Prefix.size() + Size + 1)) {
       Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      delete[]Kind;
-      delete[]Buf;
       return false;
     }
-    delete[]Kind;
-    delete[]Buf;
     return true;
   }
   inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-- 
2.43.0


From fdb8977d4ae28056f3b4a00555eb362e9b59c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 022/106] fix: json: unparse of a vector fails if there are no
 values in all elements

---
 include/bcl/Json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index eb7c4fb..569bf0b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1558,8 +1558,8 @@ struct Traits<std::vector<Ty, Allocator>> {
           Traits<unsigned long long>::unparse(JSON, I);
           JSON += "\":" + Values[I] + ",";
         }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
         JSON += '}';
       } else {
         JSON += '[';
-- 
2.43.0


From 0433ca8eeaf0f12beb60f5a2b38fd79d6c7d9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 023/106] fix: json: fields which are absent in a document are
 uninitialized in objects created by a parser

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 569bf0b..646312b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1440,7 +1440,7 @@ template<class Ty> struct Traits<Ty *> {
 
             throw 0;
           }
-          TmpDest = new Ty[MaxIdx + 1];
+          TmpDest = new Ty[MaxIdx + 1]();
         }
         // Note, in case of empty array traverse also should be called to move
         // lexer position to the end of this array.
@@ -1454,7 +1454,7 @@ template<class Ty> struct Traits<Ty *> {
     } else {
       try {
         auto Value = Lex.discardQuote();
-        TmpDest = new Ty;
+        TmpDest = new Ty();
         if (!Traits<Ty>::parse(*TmpDest, Lex))
           throw 0;
       }
@@ -1940,7 +1940,7 @@ template<class T> struct Traits<std::optional<T>> {
       if (Lex.isKeyword(Keyword::NO_VALUE)) {
         Dest.reset();
       } else {
-        T Tmp;
+        T Tmp{};
         if (Traits<T>::parse(Tmp, Lex)) {
           Dest = std::move(Tmp);
         } else {
-- 
2.43.0


From d038dab1e88ad51721e185696a9685971028c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 024/106] fix: RedirectIO::diff() loses data which contain null
 characters

---
 include/bcl/RedirectIO.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index df66208..f48025a 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -213,12 +213,12 @@ public:
       storeErrNo("fseek");
       return "";
     }
-    char Buf[100] = "\0";
+    char Buf[100];
     std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
+    while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
+      Str.append(Buf, Size);
     if (!std::feof(mFile)) {
-      storeErrNo("fgets");
+      storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
         storeErrNo("fseek");
       return "";
-- 
2.43.0


From 4110a0a47133e8247c4a199ae70e1f1fa42e69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 025/106] fix: RedirectIO dereferences null or aborts if
 nothing is redirected or if redirection fails

---
 include/bcl/RedirectIO.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index f48025a..6d744ca 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -178,7 +178,8 @@ public:
     // It is necessary to perform this check because fflush(NULL) flushes all
     // opened files and this is unwanted behavior.
     if (!mFile) {
-      storeErrNo(EINVAL, "fflush");
+      if (mayRedirected())
+        storeErrNo(EINVAL, "fflush");
       return false;
     }
     if (std::fflush(mFile) != 0) {
@@ -201,7 +202,6 @@ public:
   /// If input is redirected this method returns data which have not been
   /// read yet.
   std::string diff() {
-    assert(mFile && "File must not be null!");
     if (!isDiff())
       return "";
     auto Pos = std::ftell(mFile);
@@ -232,7 +232,11 @@ public:
 
   /// Set position to perform diff() comparison to a current position.
   bool setDiffPos() {
-    assert(mFile && "File must not be null!");
+    if (!mFile) {
+      if (mayRedirected())
+        storeErrNo(EINVAL, "ftell");
+      return false;
+    }
     mDiffPos = std::ftell(mFile);
     if (mDiffPos == -1) {
       storeErrNo("ftell");
-- 
2.43.0


From 29172bd9519000e6097d26abd5850c26810accb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 026/106] fix: RedirectIO closes a file twice if fclose() fails

---
 include/bcl/RedirectIO.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 6d744ca..4b94985 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -100,8 +100,7 @@ public:
       storeErrNo("dup2");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
     if (M == Mode::Append) {
@@ -112,8 +111,7 @@ public:
         storeErrNo("fgetc");
         if (fclose(mFile) != 0)
           storeErrNo("fclose");
-        else
-          mFile = nullptr;
+        mFile = nullptr;
         return;
       }
     }
@@ -122,8 +120,7 @@ public:
       storeErrNo("ftell");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
   }
-- 
2.43.0


From 6cd851dc82bad4b606534e2c15a6afebfaedef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 027/106] fix: move of RedirectIO leaks a file and a source
 accesses the file of a target

---
 include/bcl/RedirectIO.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 4b94985..bc0bb10 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -128,10 +128,8 @@ public:
   /// Destructor closes a target file but redirected descriptor stays open and
   /// redirection is still performed.
   ~RedirectIO() {
-    // Note that when move operation is executed destructor also called,
-    // to determine this case let us use mayRedirected().
-    // This is possible because mErrors will be unset when move is performed.
-    if (!mayRedirected() || !mFile)
+    // Note that when move operation is executed mFile will be unset.
+    if (!mFile)
       return;
     if (fclose(mFile) != 0)
       storeErrNo("fclose");
@@ -140,8 +138,12 @@ public:
 
   RedirectIO(const RedirectIO &) = delete;
   RedirectIO & operator=(const RedirectIO &) = delete;
-  RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
+  RedirectIO(RedirectIO &&From) : RedirectIO() { swap(From); }
+  RedirectIO & operator=(RedirectIO &&From) {
+    RedirectIO Tmp(std::move(From));
+    swap(Tmp);
+    return *this;
+  }
 
   /// \brief Returns true if redirection is active, note that in case of errors
   /// this also returns true.
@@ -243,6 +245,16 @@ public:
   }
 
 private:
+  /// Exchanges redirections.
+  void swap(RedirectIO &Other) noexcept {
+    mErrors.swap(Other.mErrors);
+    mToName.swap(Other.mToName);
+    std::swap(mFromHandle, Other.mFromHandle);
+    std::swap(mFile, Other.mFile);
+    std::swap(mDiffPos, Other.mDiffPos);
+    std::swap(mDiffStart, Other.mDiffStart);
+  }
+
   /// Stores description of error ErrNos to the errors() container.
   ///
   /// \param [in] Number of error. This must be one of possible errno values.
@@ -264,11 +276,11 @@ private:
   }
 
   std::unique_ptr<bcl::Diagnostic> mErrors;
-  int mFromHandle;
+  int mFromHandle = -1;
   std::string mToName;
   FILE *mFile;
-  long mDiffPos;
-  long mDiffStart;
+  long mDiffPos = 0;
+  long mDiffStart = 0;
 };
 }
 
-- 
2.43.0


From 8b5e13f472d50651c5043763f3c6d5c2e58c9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 028/106] fix: C socket: received data are truncated at a null
 character

---
 lib/Socket/CSocket/CSocket.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 3f5415e..1bb52fa 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -219,7 +219,7 @@ public:
 
   int run() {
     bcl::createServer(this);
-    auto Buffer = bcl::make_unique<char[]>(mBufferSize + 1);
+    auto Buffer = bcl::make_unique<char[]>(mBufferSize);
     for (;;) {
       auto ReceivedInfo = receiveData(mConnectionFD, Buffer.get(), mBufferSize);
       if (!ReceivedInfo.second) {
@@ -231,10 +231,9 @@ public:
         closeSocket(true);
         return 0;
       }
-      Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get()));
+        Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
-- 
2.43.0


From 2fc3c76c5fe64e8a54c93f468e2bc9272120a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 029/106] fix: C socket: only a part of a message may be sent

---
 lib/Socket/CSocket/CSocket.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 1bb52fa..79cb00e 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -29,6 +29,7 @@
 #include <bcl/CSocket.h>
 #include <bcl/utility.h>
 #include <cassert>
+#include <cerrno>
 #include <csignal>
 #include <chrono>
 #include <future>
@@ -173,7 +174,15 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) >= 0;
+  // A single call may send a part of a message only.
+  for (std::size_t Sent = 0; Sent < Message.length();) {
+    auto Size = send(S, Message.data() + Sent, Message.length() - Sent, 0);
+    if (Size >= 0)
+      Sent += Size;
+    else if (errno != EINTR)
+      return false;
+  }
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From 2803b3cbd04ce523f4e478dd92887d0757b42ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 030/106] fix: C socket: a server is killed by SIGPIPE if it
 answers a client which has gone

---
 lib/Socket/CSocket/CSocket.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 79cb00e..a8da348 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -123,6 +123,10 @@ static inline std::pair<std::size_t, bool> receiveData(SocketT S,
 #else
 using SocketT = int;
 
+#ifndef MSG_NOSIGNAL
+# define MSG_NOSIGNAL 0
+#endif
+
 struct AddressInfoT {
   int Domain;
   int Type;
@@ -176,7 +180,8 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 static inline bool sendData(SocketT S, const std::string &Message) {
   // A single call may send a part of a message only.
   for (std::size_t Sent = 0; Sent < Message.length();) {
-    auto Size = send(S, Message.data() + Sent, Message.length() - Sent, 0);
+    auto Size = send(S, Message.data() + Sent, Message.length() - Sent,
+      MSG_NOSIGNAL);
     if (Size >= 0)
       Sent += Size;
     else if (errno != EINTR)
-- 
2.43.0


From 40999f0d51bc807b0fff8200146662b2d5a08eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 031/106] fix: C socket: a connection is closed if a signal
 interrupts receiving of data

---
 lib/Socket/CSocket/CSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index a8da348..358e824 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -192,7 +192,10 @@ static inline bool sendData(SocketT S, const std::string &Message) {
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
     char *Buffer, std::size_t BufferSize) {
-  auto ReceivedSize = recv(S, Buffer, BufferSize, 0);
+  ssize_t ReceivedSize;
+  do {
+    ReceivedSize = recv(S, Buffer, BufferSize, 0);
+  } while (ReceivedSize < 0 && errno == EINTR);
   if (ReceivedSize < 0)
     return std::make_pair(0, false);
   return std::make_pair(ReceivedSize, true);
-- 
2.43.0


From 2e8b4e61d6d3fc180a80ae11a276cd95ed579bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 032/106] fix: C socket: descriptor of a closed connection may
 be reused before its thread has been finished

---
 lib/Socket/CSocket/CSocket.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 358e824..6386d2e 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -33,10 +33,10 @@
 #include <csignal>
 #include <chrono>
 #include <future>
+#include <list>
 #include <string>
 #include <thread>
 #include <vector>
-#include <unordered_map>
 
 #if _WIN32
 # include <ws2tcpip.h>
@@ -344,7 +344,7 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     return;
   }
   on(net::SocketStatus::Listen, Connection);
-  std::unordered_map<SocketT, std::future<int>> ActiveSockets;
+  std::list<std::future<int>> ActiveSockets;
   if (ConnectionMaxNumber == 0 || ConnectionMaxNumber > ActiveSockets.max_size())
     ConnectionMaxNumber = ActiveSockets.max_size();
   auto engine =
@@ -356,7 +356,7 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
   auto sanitizeConnections = [&ActiveSockets]() {
     auto Size = ActiveSockets.size();
     for (auto I = ActiveSockets.begin(), EI = ActiveSockets.end(); I != EI;) {
-      auto Status = I->second.wait_for(std::chrono::seconds(0));
+      auto Status = I->wait_for(std::chrono::seconds(0));
       if (Status == std::future_status::ready)
         I = ActiveSockets.erase(I);
       else
@@ -365,11 +365,10 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     return Size != ActiveSockets.size();
   };
   for(;;) {
+    sanitizeConnections();
     if (ActiveSockets.size() == ConnectionMaxNumber) {
       while (!sanitizeConnections())
         std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else if (ActiveSockets.size() > ConnectionMaxNumber / 2) {
-      sanitizeConnections();
     }
     sockaddr_in ClientAddr;
     socklen_t ClientAddrLength = sizeof(ClientAddr);
@@ -391,14 +390,8 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
-    auto EngineItr = ActiveSockets.emplace(std::piecewise_construct,
-      std::forward_as_tuple(ConnectionFD),
-      std::forward_as_tuple()).first;
-    assert(!EngineItr->second.valid() ||
-           EngineItr->second.wait_for(std::chrono::seconds(0))
-             == std::future_status::ready && "Unable to join thread!");
-    EngineItr->second = std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection));
+    ActiveSockets.push_back(std::async(std::launch::async,
+      engine, ConnectionFD, std::move(NewConnection)));
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From a24809a65ad7f03be33c4e57c8e2928675df90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 033/106] fix: C socket: a server is terminated if a thread can
 not be launched for a new connection

---
 lib/Socket/CSocket/CSocket.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 6386d2e..258efdf 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -35,6 +35,7 @@
 #include <future>
 #include <list>
 #include <string>
+#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -390,8 +391,13 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
-    ActiveSockets.push_back(std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection)));
+    try {
+      ActiveSockets.push_back(std::async(std::launch::async,
+        engine, ConnectionFD, net::Connection(NewConnection)));
+    } catch (const std::system_error &) {
+      on(net::SocketStatus::UnknownError, NewConnection);
+      closeAndLog(ConnectionFD, NewConnection);
+    }
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From 524a0481f0686927b07a3484f618901ed384d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 034/106] fix: move assignment of IntrusiveConnection returns
 nothing and does not close a connection of a target

---
 include/bcl/IntrusiveConnection.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c22fa0c..5bd130f 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -62,6 +62,7 @@
 #include <queue>
 #include <sstream>
 #include <thread>
+#include <utility>
 
 namespace bcl {
 /// Intrusive connection between client and server (look at the file beginning
@@ -96,10 +97,10 @@ public:
 
   /// Move assignment.
   IntrusiveConnection & operator=(IntrusiveConnection &&C) {
-    if (this == &C)
-      return *this;
-    mStatus = C.mStatus;
-    C.mStatus = nullptr;
+    // A connection which has been held before will be closed.
+    IntrusiveConnection Tmp(std::move(C));
+    std::swap(mStatus, Tmp.mStatus);
+    return *this;
   }
 
   /// Destructor.
-- 
2.43.0


From 1f4bde2b64adae57cd7eb5e42fdf1393d2bae053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 035/106] fix: status of IntrusiveConnection may be deleted
 before a notification has been finished

---
 include/bcl/IntrusiveConnection.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 5bd130f..fa74813 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -107,10 +107,10 @@ public:
   ~IntrusiveConnection() {
     if (!mStatus)
       return;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mReject = true;
-    }
+    // The lock must be held, otherwise status may be already deleted when
+    // notify_one() is called.
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
     mStatus->mSendEvent.notify_one();
   }
 
@@ -137,10 +137,12 @@ public:
     }
     if (Close) {
       {
+        // The lock must be held, otherwise status may be already deleted when
+        // notify_one() is called.
         std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
         mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
       }
-      mStatus->mSendEvent.notify_one();
       mStatus = nullptr;
       return false;
     }
@@ -149,8 +151,8 @@ public:
       std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
       mStatus->mSendData = Data;
       mStatus->mIsSend = true;
+      mStatus->mSendEvent.notify_one();
     }
-    mStatus->mSendEvent.notify_one();
     return true;
   }
 
-- 
2.43.0


From 27060653a8f4c3114a0ca0888efaf90c1c281315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 036/106] fix: IntrusiveConnection does not respond to all
 requests which have been received at once after a reject

---
 include/bcl/IntrusiveConnection.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index fa74813..8c4fe40 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -202,10 +202,6 @@ public:
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
       std::string Item;
@@ -217,6 +213,11 @@ public:
       if (!Item.empty())
         Buffer.push(Item);
       while (!Buffer.empty()) {
+        if (*Reject) {
+          Buffer.pop();
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          continue;
+        }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
           CS->mIsReceive = true;
@@ -237,10 +238,8 @@ public:
           CS->mIsSend = false;;
         }
         S->send(Data + Delimiter);
-        if (*Reject) {
+        if (*Reject)
           delete CS;
-          break;
-        }
       }
     });
   }
-- 
2.43.0


From 4b1ce88e06410e6cbb95df89757e0ff1c0e42834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 037/106] fix: move assignment of marray returns nothing and
 leaks memory of a target

---
 include/bcl/marray.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 889b1de..7881428 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -105,10 +105,14 @@ public:
   }
 
   inline marray & operator=(marray &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray() BCL_ALWAYS_INLINE {
-- 
2.43.0


From a39debeb2b247721ac7511383a79f8ff2cceab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 038/106] fix: move assignment of marray_f returns nothing and
 leaks memory of a target

---
 include/bcl/marray_f.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index 0e9a17e..bf549f3 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -76,10 +76,14 @@ public:
   }
 
   inline marray_f & operator=(marray_f &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray_f() BCL_ALWAYS_INLINE {
-- 
2.43.0


From bcc869d3700b572abe8e7b2ef63cb291bdecffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 039/106] fix: operators of chain iterators can not be compiled

---
 include/bcl/Chain.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index ee34366..b5fcb22 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -29,6 +29,11 @@
 #ifndef BCL_CHAIN_H
 #define BCL_CHAIN_H
 
+#include <cassert>
+#include <iterator>
+#include <type_traits>
+#include <utility>
+
 namespace bcl {
 /// \brief Simple bidirectional intrusive chain of nodes.
 ///
@@ -265,7 +270,8 @@ public:
 
   /// Preincrement, this node must not be null.
   ChainIteratorC & operator++()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(
+        ChainTraits<Ty, Tag>::getNext(std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Advancing null node!");
     mCurrent = ChainTraits<Ty, Tag>::getNext(mCurrent);
     return *this;
@@ -273,13 +279,14 @@ public:
 
   /// Postincrement, this node must not be null.
   ChainIteratorC operator++(int)
-      noexcept(noexcept(ChainIteratorC::operator++())) {
+      noexcept(noexcept(++std::declval<ChainIteratorC &>())) {
     ChainIteratorC Tmp = *this; ++*this; return Tmp;
   }
 
   /// Predecrement, this node must not be null.
   ChainIteratorC & operator--()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(
+        ChainTraits<Ty, Tag>::getPrev(std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Decreasing null node!!");
     mCurrent = ChainTraits<Ty, Tag>::getPrev(mCurrent);
     return *this;
@@ -287,7 +294,7 @@ public:
 
   /// Postdecrement, this node must not be null.
   ChainIteratorC operator--(int)
-      noexcept(noexcept(ChainIteratorC::operator--())) {
+      noexcept(noexcept(--std::declval<ChainIteratorC &>())) {
     ChainIteratorC Tmp = *this; ++*this; return Tmp;
   }
 
@@ -296,13 +303,15 @@ public:
 
   /// Returns a next node.
   const Ty * getNext() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(
+        ChainTraits<Ty, Tag>::getNext(std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getNext(mCurrent);
   }
 
   /// Returns a previous node.
   const Ty * getPrev() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(
+        ChainTraits<Ty, Tag>::getPrev(std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getPrev(mCurrent);
   }
 
@@ -340,27 +349,27 @@ public:
 
   /// Preincrement, this node must not be null.
   ChainIterator & operator++()
-      noexcept(noexcept(Base::operator++())) {
+      noexcept(noexcept(++std::declval<Base &>())) {
     Base::operator++();
     return *this;
   }
 
   /// Postincrement, this node must not be null.
   ChainIterator operator++(int)
-      noexcept(noexcept(ChainIterator::operator++())) {
+      noexcept(noexcept(++std::declval<ChainIterator &>())) {
     ChainIterator Tmp = *this; ++*this; return Tmp;
   }
 
   /// Predecrement, this node must not be null.
   ChainIterator & operator--()
-      noexcept(noexcept(Base::operator--())) {
+      noexcept(noexcept(--std::declval<Base &>())) {
     Base::operator--();
     return *this;
   }
 
   /// Postdecrement, this node must not be null.
   ChainIterator operator--(int)
-      noexcept(noexcept(ChainIterator::operator--())) {
+      noexcept(noexcept(--std::declval<ChainIterator &>())) {
     ChainIterator Tmp = *this; ++*this; return Tmp;
   }
 
@@ -369,13 +378,13 @@ public:
 
   /// Returns a next node.
   Ty * getNext() const
-      noexcept(noexcept(Base::getNext())) {
+      noexcept(noexcept(std::declval<const Base &>().getNext())) {
     return const_cast<Ty *>(Base::getNext());
   }
 
   /// Returns a previous node.
   Ty * getPrev() const
-      noexcept(noexcept(Base::getPrev())) {
+      noexcept(noexcept(std::declval<const Base &>().getPrev())) {
     return const_cast<Ty *>(Base::getPrev());
   }
 
-- 
2.43.0


From fa56647bd482b0c489fc38346d3189ec3ec1ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 040/106] fix: comparison of a chain iterator with a node
 returns nothing

---
 include/bcl/Chain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index b5fcb22..c3a72e0 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -251,7 +251,7 @@ public:
 
   /// Compares the iterator with a node.
   bool operator==(const Ty *RHS) const noexcept {
-    mCurrent == RHS;
+    return mCurrent == RHS;
   }
 
   /// Compares the iterator with a node.
-- 
2.43.0


From 616e1fd86b66f4c8dfd7713281aa9a0b7a014374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 041/106] fix: postfix decrement of chain iterators moves them
 forward

---
 include/bcl/Chain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index c3a72e0..2c72f65 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -295,7 +295,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIteratorC operator--(int)
       noexcept(noexcept(--std::declval<ChainIteratorC &>())) {
-    ChainIteratorC Tmp = *this; ++*this; return Tmp;
+    ChainIteratorC Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
@@ -370,7 +370,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIterator operator--(int)
       noexcept(noexcept(--std::declval<ChainIterator &>())) {
-    ChainIterator Tmp = *this; ++*this; return Tmp;
+    ChainIterator Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
-- 
2.43.0


From ae7cc303b60bf961a7034bd0edb38285bf9613c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 042/106] fix: static maps of types and traits have their cells
 in reverse order

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 8b376cb..33d57de 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -370,7 +370,7 @@ namespace detail {
 template<template<class Ty> class KeyCtor, class Types, class... Keys>
 struct StaticMapConstructorImp {
   typedef typename StaticMapConstructorImp<KeyCtor, typename Types::Next,
-    typename KeyCtor<typename Types::Type>::CellKey, Keys...>::Type Type;
+    Keys..., typename KeyCtor<typename Types::Type>::CellKey>::Type Type;
 };
 
 template<template<class Ty> class KeyCtor, class... Keys>
-- 
2.43.0


From 3883a06a80e3731ab89fddcd8f9081e4aabffaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 043/106] fix: CopyFromCellFunctor and MoveFromCellFunctor can
 not be compiled

---
 include/bcl/cell.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 33d57de..354b1f2 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -696,7 +696,7 @@ private:
 template<class To_> struct CopyFromCellFunctor {
   typedef To_ To;
 
-  CopyFromCellFunctor(const To *T) : mTo(T) {
+  CopyFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -713,7 +713,7 @@ private:
 
   template<class CellTy> inline void copyFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 
 /// \brief Moves data from one cell to another.
@@ -752,7 +752,7 @@ private:
 template<class To_> struct MoveFromCellFunctor {
   typedef To_ To;
 
-  MoveFromCellFunctor(const To *T) : mTo(T) {
+  MoveFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -769,7 +769,7 @@ private:
 
   template<class CellTy> inline void moveFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 }
 
-- 
2.43.0


From 29a6a062efb5e5f166413adf2184d50abf619107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 044/106] fix: MoveToCellFunctor copies values

---
 include/bcl/cell.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 354b1f2..ce8562f 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -724,7 +724,7 @@ private:
 template<class From_> struct MoveToCellFunctor {
   typedef From_ From;
 
-  MoveToCellFunctor(const From *F) : mFrom(F) {
+  MoveToCellFunctor(From *F) : mFrom(F) {
     assert(F && "The source of data must not be null!");
   }
 
@@ -741,7 +741,7 @@ private:
 
   template<class CellTy> inline void moveTo(CellTy *, std::false_type) {}
 
-  const From *mFrom;
+  From *mFrom;
 };
 
 /// \brief Moves data from one cell to another.
-- 
2.43.0


From a623124576af7961ad1510d1b112b195c7e95543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 045/106] fix: two empty static maps can not be merged

---
 include/bcl/cell.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index ce8562f..cfb0c33 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -623,6 +623,10 @@ template<class Right> struct MergeCell<StaticMap<>, Right> {
   typedef Right Result;
 };
 
+template<> struct MergeCell<StaticMap<>, StaticMap<> > {
+  typedef StaticMap<> Result;
+};
+
 /// Deletes memory allocated for a value which is stored in a cell if it has
 /// a pointer type.
 struct ClearCellFunctor {
-- 
2.43.0


From c346e6ade8fb6c732c1da186085afd992171adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 046/106] fix: temporary function can not be applied to an
 empty list of types

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index cfb0c33..2d1ed2f 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -283,7 +283,7 @@ template<> struct TypeList<> {
   static constexpr std::size_t size_of() { return 0; }
 
   /// This is invoked when all types will be visited.
-  template<class Function> static void for_each_type(Function &) {}
+  template<class Function> static void for_each_type(Function &&) {}
 };
 
 /// \brief Determines whether the Type exists in the TypeList.
-- 
2.43.0


From 474eb948a4ed29ac7037ad1612f997dc0142f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 047/106] fix: get_tagged_tuple reverses the order of elements

---
 include/bcl/tagged.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index 706d51e..17152c6 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -439,7 +439,7 @@ namespace detail {
 template<class Ty, class Tags, class... Taggeds>
 struct get_tagged_tuple_impl {
   using type = typename get_tagged_tuple_impl<Ty, typename Tags::Next,
-    tagged<Ty, typename Tags::Type>, Taggeds...>::type;
+    Taggeds..., tagged<Ty, typename Tags::Type>>::type;
 };
 
 template<class Ty, class... Taggeds>
-- 
2.43.0


From 4c0ba7c7938c041834ec6dc9bf12d368260352bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 048/106] fix: tagged_tuple_idx never finds a tag

---
 include/bcl/tagged.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index 17152c6..5beba8e 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -361,7 +361,8 @@ template<class Tag, class T> class tagged_tuple_idx;
 template<class Tag, class... Taggeds>
 class tagged_tuple_idx<Tag, tagged_tuple<Taggeds...>> :
   public std::integral_constant<
-    std::size_t, bcl::index_of<Tag, Taggeds...>()> {};
+    std::size_t, bcl::index_of<
+      bcl::get_tagged<Tag, Taggeds...>, Taggeds...>()> {};
 
 /// Provide compile time access to a tag with a specified index.
 template<std::size_t Idx, class T> struct tagged_tuple_tag;
-- 
2.43.0


From ca757420b4006b3028902ffb03c2e381e91f36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 049/106] fix: release of a missing description of a trait
 erases past the end

---
 include/bcl/trait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1d5511b..1daf246 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -805,8 +805,9 @@ public:
   template<class Trait> TraitDataTy<Trait> * release() {
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
-    auto *Result = I == mValues.end() ? nullptr :
-      reinterpret_cast<TraitDataTy<Trait>*>(I->second);
+    if (I == mValues.end())
+      return nullptr;
+    auto *Result = reinterpret_cast<TraitDataTy<Trait>*>(I->second);
     mValues.erase(I);
     return Result;
   }
-- 
2.43.0


From 512f0e2febd732d77a75312d45133235dab76339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 050/106] fix: move assignment of a trait set leaks its
 descriptions

---
 include/bcl/trait.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1daf246..d3ead08 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -619,7 +619,15 @@ class TraitSet {
 public:
   TraitSet() = default;
   TraitSet(TraitSet &&) = default;
-  TraitSet & operator=(TraitSet &&) = default;
+  TraitSet & operator=(TraitSet &&TS) {
+    if (this == &TS)
+      return *this;
+    if (!mValues.empty())
+      mTD.for_each(ConflictsResolver(&mValues));
+    mValues = std::move(TS.mValues);
+    mTD = std::move(TS.mTD);
+    return *this;
+  }
 
   // This set manages memory allocation for a trait description, however,
   // it does not know how to copy this trait. Hence, only 'move' operations are
-- 
2.43.0


From 80c4d8fba2db78f36c36b51feb025a35fa7a18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 051/106] fix: description of a trait is destroyed if it is set
 once more

---
 include/bcl/trait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index d3ead08..4107a39 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -767,7 +767,7 @@ public:
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
     if (I != mValues.end()) {
-      if (I->second)
+      if (I->second && I->second != reinterpret_cast<void *>(T))
         delete reinterpret_cast<TraitDataTy<Trait>*>(I->second);
       I->second = reinterpret_cast<void *>(T);
       return;
-- 
2.43.0


From 5d48d946c93ca72bcd40a9bd9a7cc8a77eb82a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 052/106] fix: groups of traits can not be set or unset via
 descriptor

---
 include/bcl/trait.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 4107a39..6c613b0 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -896,31 +896,37 @@ template<class Descriptor, class... WhatTy> struct UnsetFunctor {
   static void unset(Descriptor &Dptr) { Dptr.template unset<WhatTy...>(); }
 };
 
+template<class Descriptor, class... Traits>
+struct UnsetFunctor<Descriptor, bcl::TypeList<Traits...>> :
+  public UnsetFunctor<Descriptor, Traits...> {};
+
 template<class Descriptor, class... Groups>
-struct UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {
-  static void unset(Descriptor &Dptr) { Dptr.template unset<Groups...>(); }
-};
+struct UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> :
+  public UnsetFunctor<Descriptor, typename bcl::RemoveDuplicate<
+    typename bcl::TraitList<Groups...>::Type>::Type> {};
 
 template<class Descriptor, class TraitMap, class TraitTaggeds, class... Groups>
 struct UnsetFunctor<Descriptor,
-    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> {
-  static void unset(Descriptor &Dptr) { Dptr.template unset<Groups...>(); }
-};
+    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> :
+  public UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {};
 
 template<class Descriptor, class... WhatTy> struct SetFunctor {
   static void set(Descriptor &Dptr) { Dptr.template set<WhatTy...>(); }
 };
 
+template<class Descriptor, class... Traits>
+struct SetFunctor<Descriptor, bcl::TypeList<Traits...>> :
+  public SetFunctor<Descriptor, Traits...> {};
+
 template<class Descriptor, class... Groups>
-struct SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {
-  static void set(Descriptor &Dptr) { Dptr.template set<Groups...>(); }
-};
+struct SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> :
+  public SetFunctor<Descriptor, typename bcl::RemoveDuplicate<
+    typename bcl::TraitList<Groups...>::Type>::Type> {};
 
 template<class Descriptor, class TraitMap, class TraitTaggeds, class... Groups>
 struct SetFunctor<Descriptor,
-    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> {
-  static void set(Descriptor &Dptr) { Dptr.template set<Groups...>(); }
-};
+    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> :
+  public SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {};
 
 template<class WhereTy> struct SetTraitFunctor {
   template<class Trait> void operator()() {
-- 
2.43.0


From 3376edc4af4e8b7a5e6b5360ef7d6153cc1d5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 053/106] fix: binary literals longer than 32 bits

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index b2ee789..a460f3a 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -83,7 +83,8 @@ template <char HighBit, char... Bits>
 struct ToBinary<HighBit, Bits...> {
   static_assert(HighBit == '0' || HighBit == '1', "Not a binary value!");
   static const unsigned long long Value =
-    (HighBit - '0') << (sizeof...(Bits)) | ToBinary<Bits...>::Value;
+    static_cast<unsigned long long>(HighBit - '0') << (sizeof...(Bits)) |
+    ToBinary<Bits...>::Value;
 };
 
 /// Implementation of a user-defined binary-literal.
-- 
2.43.0


From a47400834f2f78f9fb2ba088a45158b58fa4055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 054/106] fix: shrinkPair accesses memory outside of small and
 unaligned values

---
 include/bcl/utility.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index a460f3a..216b546 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -360,18 +360,19 @@ template<class FirstT, class SecondT, class T> bool shrinkPair(
   char RawFirst[sizeof(FirstT)], RawSecond[sizeof(SecondT)];
   constexpr auto SizeOfT = sizeof(T);
   constexpr auto HalfSizeOfT = SizeOfT / 2;
-  std::memset(RawFirst, 0, sizeof(FirstT));
-  new(RawFirst) FirstT(First);
+  std::memcpy(RawFirst, &First, sizeof(FirstT));
   for (std::size_t I = HalfSizeOfT; I < sizeof(FirstT) ; ++I)
     if (RawFirst[I] != 0)
       return false;
-  std::memset(RawSecond, 0, sizeof(SecondT));
-  new(RawSecond) SecondT(Second);
+  std::memcpy(RawSecond, &Second, sizeof(SecondT));
   for (std::size_t I = HalfSizeOfT; I < sizeof(SecondT); ++I)
     if (RawSecond[I] != 0)
       return false;
-  std::memmove((char *)&Out, RawFirst, HalfSizeOfT);
-  std::memmove((char *)&Out + HalfSizeOfT, RawSecond, HalfSizeOfT);
+  std::memset((char *)&Out, 0, SizeOfT);
+  std::memcpy((char *)&Out, RawFirst,
+    sizeof(FirstT) < HalfSizeOfT ? sizeof(FirstT) : HalfSizeOfT);
+  std::memcpy((char *)&Out + HalfSizeOfT, RawSecond,
+    sizeof(SecondT) < HalfSizeOfT ? sizeof(SecondT) : HalfSizeOfT);
   return true;
 }
 
@@ -393,7 +394,7 @@ void restoreShrinkedPair(const T &Data, FirstT &First, SecondT &Second) {
   static_assert(sizeof(SecondT) >= HalfSizeOfT ,
     "Too small target type of a second value!");
   char RawData[SizeOfT];
-  new (RawData) T(Data);
+  std::memcpy(RawData, &Data, SizeOfT);
   std::memset(&First, 0, sizeof(FirstT));
   std::memmove(&First, RawData, HalfSizeOfT);
   std::memset(&Second, 0, sizeof(SecondT));
-- 
2.43.0


From d4437365bfb09fb8062ed51266666a4e8ed9adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 055/106] fix: value and difference types of
 IteratorDataAdaptor are swapped

---
 include/bcl/IteratorDataAdaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IteratorDataAdaptor.h b/include/bcl/IteratorDataAdaptor.h
index 4efd422..6fb1be9 100644
--- a/include/bcl/IteratorDataAdaptor.h
+++ b/include/bcl/IteratorDataAdaptor.h
@@ -42,8 +42,8 @@ namespace bcl {
 /// instead of a reference.
 template<class ItrTy, class DataTy, class Ty, class PtrTy = Ty *>
 struct IteratorDataAdaptor : public std::iterator<
-      typename std::iterator_traits<ItrTy>::iterator_category,
-      typename std::iterator_traits<ItrTy>::difference_type, Ty, PtrTy, Ty> {
+      typename std::iterator_traits<ItrTy>::iterator_category, Ty,
+      typename std::iterator_traits<ItrTy>::difference_type, PtrTy, Ty> {
   static_assert(std::is_constructible<Ty,
     typename std::iterator_traits<ItrTy>::reference, DataTy>::value,
     "Wrapper must point to a value which is constructible from (*ItrTy, DataTy)!");
-- 
2.43.0


From beb564b5229121c6d37d804f09e0ebd29b4edb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 056/106] fix: sizes of guards and monomials of an equation are
 not returned

---
 include/bcl/Equation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index e35056d..bf9ef9f 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -143,7 +143,7 @@ public:
     return guard_const_range{guard_begin(), guard_end()};
   }
 
-  std::size_t guard_size() const noexcept { mGuards.second; }
+  std::size_t guard_size() const noexcept { return mGuards.second; }
 
   using inverse_iterator = typename InverseGuardList::iterator;
   using inverse_range = Range<inverse_iterator>;
@@ -176,7 +176,7 @@ public:
     return inverse_const_range{inverse_begin(), inverse_end()};
   }
 
-  std::size_t inverse_size() const noexcept { mInverseGuards.second; }
+  std::size_t inverse_size() const noexcept { return mInverseGuards.second; }
 
   using computed_iterator = typename ComputedMonomList::iterator;
   using computed_range = Range<computed_iterator>;
@@ -210,7 +210,7 @@ public:
     return computed_const_range{computed_begin(), computed_end()};
   }
 
-  std::size_t computed_size() const noexcept { mComputedMonoms.second; }
+  std::size_t computed_size() const noexcept { return mComputedMonoms.second; }
 
 private:
   std::pair<GuardList, std::size_t> mGuards = {{}, 0};
-- 
2.43.0


From 79024b9fbd5c0f888d3ea90dc4f24fb36f7dea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 057/106] fix: Equation.h relies on headers included by its
 users

---
 include/bcl/Equation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index bf9ef9f..6793ab6 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -25,10 +25,14 @@
 #ifndef BCL_EQUATION_H
 #define BCL_EQUATION_H
 
+#include <array>
 #include <assert.h>
+#include <cstdlib>
+#include <functional>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 namespace milp {
-- 
2.43.0


From cb5aa05d67711e5d792fd863979f8c975ea5f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 058/106] fix: list of instantiated equations contains
 discarded ones

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 6793ab6..e46eea0 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -527,7 +527,7 @@ public:
         ++I;
       } else {
         --mInstantiatedSize;
-        std::swap(mIdx[I], mIdx[mInstantiatedSize]);
+        std::swap(mRows[mIdx[I]], mRows[mIdx[mInstantiatedSize]]);
       }
     }
   }
-- 
2.43.0


From 2f9c4bf5051e1d2c4fda2d8abcb0def926fce010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 059/106] fix: types of columns are used to process values of a
 binomial system

---
 include/bcl/Equation.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index e46eea0..0885192 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -471,7 +471,8 @@ public:
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       std::swap(Divisors[0], Divisors[I]);
       auto Production = std::accumulate(
-        Divisors.begin() + 1, Divisors.end(), 1, std::multiplies<ColumnT>());
+        Divisors.begin() + 1, Divisors.end(), ValueT(1),
+        std::multiplies<ValueT>());
       auto &S = mSolution[I];
       Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;
       S.LHS.Value *= Production;
@@ -487,7 +488,7 @@ public:
   /// computed solution have non-negative free terms.
   template <class ColumnInfoT>
   void solutioWithPositiveConstant(ColumnInfoT &Info) {
-    ColumnT Min = 0;
+    ValueT Min = 0;
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       if (mSolution[I].Constant < Min)
         Min = mSolution[I].Constant;
@@ -549,7 +550,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
     OS << "--- discarded ---\n";
@@ -567,7 +568,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
   }
-- 
2.43.0


From ffd9ef870fa42ec61ff0c82bd696fe66f6703aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 060/106] fix: solution of an unsolvable binomial system
 contains equations without variables

---
 include/bcl/Equation.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 0885192..b2c943d 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -364,7 +364,8 @@ public:
   template <class ColumnInfoT, bool IsSolvable = true,
             typename StreamT = const UndefT>
   std::size_t solve(ColumnInfoT &Info, StreamT &OS = Undef) {
-    for (std::size_t I = 0; I < mInstantiatedSize; ++I) {
+    std::size_t SolvedSize = 0;
+    for (std::size_t I = 0; I < mInstantiatedSize; ++I, ++SolvedSize) {
       auto &Row = mRows[mIdx[I]];
       // We want to solve binomial equation A * X + B * Y = C
       // 1. Find GCD and two coefficients X' and Y' such as GCD = A * X' + B * Y'
@@ -372,7 +373,7 @@ public:
       log("> solve:\n", OS);
       logEquation(Row, Info, OS);
       if (!IsSolvable && Row.Constant % std::get<0>(GCD))
-        return I;
+        break;
       assert(Row.Constant % std::get<0>(GCD) == 0 &&
         "Equation must have solution!");
       // 2. It is known that linear equation has solution if GCD of coefficients
@@ -443,7 +444,7 @@ public:
       }
     }
     mSolution.resize(SignificantSize);
-    return mInstantiatedSize;
+    return SolvedSize;
   }
 
   const std::vector<EquationT> &getSolution() const noexcept {
-- 
2.43.0


From e1d3e460d42216edf0ec06b8781978798b9d44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 061/106] fix: binomial systems with equations of a single
 variable are solved incorrectly

---
 include/bcl/Equation.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index b2c943d..a140d2b 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -368,6 +368,20 @@ public:
     for (std::size_t I = 0; I < mInstantiatedSize; ++I, ++SolvedSize) {
       auto &Row = mRows[mIdx[I]];
       // We want to solve binomial equation A * X + B * Y = C
+      // If both monomials refer to the same variable, the equation is
+      // (A + B) * X = C.
+      bool IsSingle = Row.LHS.Column == Row.RHS.Column;
+      if (IsSingle) {
+        Row.LHS.Value += Row.RHS.Value;
+        Row.RHS.Value = 0;
+      }
+      // The equation 0 * X + 0 * Y = C does not restrict variables.
+      if (Row.LHS.Value == 0 && Row.RHS.Value == 0) {
+        if (!IsSolvable && Row.Constant != 0)
+          break;
+        assert(Row.Constant == 0 && "Equation must have solution!");
+        continue;
+      }
       // 1. Find GCD and two coefficients X' and Y' such as GCD = A * X' + B * Y'
       auto GCD = euclidGCD(Row.LHS.Value, Row.RHS.Value);
       log("> solve:\n", OS);
@@ -396,10 +410,13 @@ public:
       // Y = (Y' * Q) + (A / GCD) * T, where T is any integer value.
       mSolution.emplace_back(Row.LHS.Column, 1,
         ParameterCol, Row.RHS.Value / std::get<0>(GCD), AnySolution.first);
-      mSolution.emplace_back(Row.RHS.Column, 1,
-        ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
+      // If there is a single variable, it does not depend on T.
+      if (!IsSingle)
+        mSolution.emplace_back(Row.RHS.Column, 1,
+          ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
+      std::size_t NewSolutionSize = IsSingle ? 1 : 2;
       auto &SolutionLHS = mSolution[mSolution.size() - 1];
-      auto &SolutionRHS = mSolution[mSolution.size() - 2];
+      auto &SolutionRHS = mSolution[mSolution.size() - NewSolutionSize];
       log("> solution:\n", OS);
       logEquation(SolutionLHS, Info, OS);
       logEquation(SolutionRHS, Info, OS);
@@ -422,7 +439,7 @@ public:
         logEquation(RowToUpdate, Info, OS);
       }
       log("> update solution:\n", OS);
-      for (std::size_t J = 0, EJ = mSolution.size() - 2; J < EJ; ++J) {
+      for (std::size_t J = 0, EJ = mSolution.size() - NewSolutionSize; J < EJ; ++J) {
         auto &SolutionToUpdate = mSolution[J];
         logEquation(SolutionToUpdate, Info, OS);
         updateRow(SolutionLHS, SolutionToUpdate.Constant, SolutionToUpdate.LHS);
-- 
2.43.0


From 22645c91c4bb5f3a563a012cd981d942025972aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:16 +0000
Subject: [PATCH 062/106] fix: digits of values of small integer types can not
 be counted

---
 include/bcl/utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 216b546..1fa6e8a 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -110,7 +110,7 @@ constexpr unsigned long long operator "" _b() {
 template<class T>
 inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value % Base != 0 ? 0 : numberOfLessZeros(Value / Base, Base) + 1;
+  return Value % Base != 0 ? 0 : numberOfLessZeros<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a number of digits in a value which is represented in a number
@@ -118,7 +118,7 @@ inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
 template<class T>
 inline constexpr std::size_t numberOfDigits(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value / Base == 0 ? 1 : numberOfDigits(Value / Base, Base) + 1;
+  return Value / Base == 0 ? 1 : numberOfDigits<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a unit mask (11...1) of a specified type that comprises a specified
-- 
2.43.0


From 2497c731333fbf9670b4b823891855232f892bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 063/106] fix: malformed content of skipped JSON values is
 accepted

---
 include/bcl/Json.h | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 646312b..502206d 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -581,22 +581,38 @@ public:
   /// Skips all characters in a JSON string between braces or brackets,
   /// return false if some errors have been occurred.
   bool skipInternal() {
-    Token Last;
-    if (is(Token::LEFT_BRACKET))
-      Last = Token::RIGHT_BRACKET;
-    else if (checkSpecial(Token::LEFT_BRACE))
-      Last = Token::RIGHT_BRACE;
-    else
-      return false;
-    int Level = 0;
-    while (goToNext()) {
-      if ((isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) &&
-          Level-- == 0)
-        return checkSpecial(Last);
-      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
-        ++Level;
+    // Closing brackets of all open levels, the innermost one is at the top.
+    std::stack<Token> Last;
+    for (;;) {
+      bool IsOpen = true;
+      if (is(Token::LEFT_BRACKET))
+        Last.push(Token::RIGHT_BRACKET);
+      else if (is(Token::LEFT_BRACE))
+        Last.push(Token::RIGHT_BRACE);
+      else if (Last.empty())
+        return checkSpecial(Token::LEFT_BRACE);
+      else if (!checkValue())
+        return false;
+      else
+        IsOpen = false;
+      if (!goToNext())
+        return false;
+      if (!IsOpen || is(Last.top())) {
+        while (is(Last.top())) {
+          Last.pop();
+          if (Last.empty())
+            return true;
+          if (!goToNext())
+            return false;
+        }
+        if (!checkSpecial(Token::COMMA) || !goToNext())
+          return false;
+      }
+      if (Last.top() == Token::RIGHT_BRACE &&
+          (!checkIdentifier() || !goToNext() ||
+           !checkSpecial(Token::COLON) || !goToNext()))
+        return false;
     }
-    return false;
   }
 
   /// Resets current lexer position.
-- 
2.43.0


From 1beb20527952eced8d728e248cc7b3a63b5e3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 064/106] fix: data received by a Node.js socket are neither
 truncated nor leaked

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 8023714..9f5e1b4 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -117,12 +117,12 @@ private:
       return;
     }
     auto Data = Local<Uint8Array>::Cast(Args[0]);
-    auto DataUtf8 = new char [Data->ByteLength() + 1];
-    Data->CopyContents(DataUtf8, Data->ByteLength());
-    DataUtf8[Data->ByteLength()] = '\0';
+    // Data may contain zero bytes.
+    std::string Message(Data->ByteLength(), '\0');
+    Data->CopyContents(&Message[0], Message.size());
     void *UserFunc = Local<External>::Cast(Args.Data())->Value();
     auto F = static_cast<ReceiveCallback *>(UserFunc);
-    (*F)(std::string(DataUtf8));
+    (*F)(Message);
   }
 
   /// This is a wrapper of a listener specified by a user, this is binded
-- 
2.43.0


From eb59ac196af23bf0ca4b97d7b95a430ee987e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 065/106] fix: messages with zero characters are sent
 completely by a Node.js socket

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 9f5e1b4..9255cc7 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -70,7 +70,8 @@ public:
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
     Local<Value> Argv[Argc] = {
-        String::NewFromUtf8(mIsolate, Message.c_str()).ToLocalChecked()};
+        String::NewFromUtf8(mIsolate, Message.data(), NewStringType::kNormal,
+          static_cast<int>(Message.size())).ToLocalChecked()};
     Local<Context> Ctx = mIsolate->GetCurrentContext();
     Local<Function>::New(mIsolate, mSend)->Call(Ctx, Null(mIsolate), Argc, Argv);
   }
-- 
2.43.0


From 956a4e7b0e1176c80cd3838926179c1f3531ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 066/106] fix: wrong arguments of a Node.js connection throw
 instead of aborting the process

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 9255cc7..0a8b7cb 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -178,9 +178,10 @@ public:
     Local<Value> Argv[Argc] = { Args[0], Args[1] };
     Local<Function> Ctor = Local<Function>::New(CurrIsolate, mCtor);
     Local<Context> Ctx = CurrIsolate->GetCurrentContext();
-    Local<Object> Instance =
-      Ctor->NewInstance(Ctx, Argc, Argv).ToLocalChecked();
-    Args.GetReturnValue().Set(Instance);
+    Local<Object> Instance;
+    // If constructor throws an exception, it will be propagated to a caller.
+    if (Ctor->NewInstance(Ctx, Argc, Argv).ToLocal(&Instance))
+      Args.GetReturnValue().Set(Instance);
   }
 
 private:
-- 
2.43.0


From e2ae1ed73508cb1a98ccfcc53d19236467a01d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 067/106] fix: functions of a closed Node.js connection are
 released

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 0a8b7cb..3bc8f64 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -143,8 +143,9 @@ private:
   }
 
   Isolate *mIsolate;
-  Persistent<Function> mSend;
-  Persistent<Function> mOn;
+  // Note, that a destructor of Persistent does not release a function.
+  Global<Function> mSend;
+  Global<Function> mOn;
   mutable std::stack<std::unique_ptr<ReceiveCallback>> mReceiveCallbacks;
   mutable std::stack<std::unique_ptr<ClosedCallback>> mClosedCallbacks;
 };
-- 
2.43.0


From 70b9e26501e7ebee72ee3465f4b8c6edaee709d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 068/106] fix: a Node.js connection is alive until all
 listeners of its closing are called

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 3bc8f64..e44128b 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -195,7 +195,12 @@ private:
   /// Start execution of a server.
   static void startServer(const FunctionCallbackInfo<Value>& Args) {
     auto* C = ObjectWrap::Unwrap<Connection>(Args.Holder());
-    C->mSocket->closed([C](bool){ C->Unref(); });
+    // Other listeners may be called after this one, so the connection must not
+    // become collectable until the event has been processed.
+    C->mSocket->closed([C](bool) {
+      Isolate::GetCurrent()->EnqueueMicrotask(
+        [](void *C) { static_cast<Connection *>(C)->Unref(); }, C);
+    });
     createServer(C->mSocket);
   }
 
-- 
2.43.0


From 0a5cef56d1133ce2ffe4f6c8e5f4ac254809c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 069/106] fix: a Node.js connection which is not started may be
 collected

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index e44128b..8da57a9 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -197,6 +197,7 @@ private:
     auto* C = ObjectWrap::Unwrap<Connection>(Args.Holder());
     // Other listeners may be called after this one, so the connection must not
     // become collectable until the event has been processed.
+    C->Ref();
     C->mSocket->closed([C](bool) {
       Isolate::GetCurrent()->EnqueueMicrotask(
         [](void *C) { static_cast<Connection *>(C)->Unref(); }, C);
@@ -231,7 +232,6 @@ private:
         Local<Function>::Cast(Args[1]));
       auto *C = new Connection(S);
       C->Wrap(Args.This());
-      C->Ref();
       Args.GetReturnValue().Set(Args.This());
     } else {
       newInstance(Args);
-- 
2.43.0


From 74c7ade41a2084e96681656ce71d8ea88e7db429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 070/106] fix: the least integer is converted to a text without
 an overflow

---
 include/bcl/legacy/text.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/bcl/legacy/text.h b/include/bcl/legacy/text.h
index 97d53e0..1318c90 100644
--- a/include/bcl/legacy/text.h
+++ b/include/bcl/legacy/text.h
@@ -53,20 +53,21 @@ namespace Base
         if ( value == 0)
             return L"0";
 
+        unsigned rest = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = -rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer;
     }
@@ -94,20 +95,21 @@ namespace Base
         if ( value == 0)
             return "0";
 
+        unsigned rest = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = -rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer; 
     }
-- 
2.43.0


From 6f2f12d8e7b356ee022048c930d0bc4f5c9e69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 071/106] fix: CopyFromCellFunctor of legacy cells can be
 compiled

---
 include/bcl/legacy/cell_legacy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/cell_legacy.h b/include/bcl/legacy/cell_legacy.h
index 7876f7d..37cb5cd 100644
--- a/include/bcl/legacy/cell_legacy.h
+++ b/include/bcl/legacy/cell_legacy.h
@@ -452,7 +452,7 @@ namespace Base
         typedef To_ To; //!< Назначение копирования.
 
         //! Создает функционал.
-        CopyFromCellFunctor( const To *to) : m_to( to) { ASSERT( m_to); }
+        CopyFromCellFunctor( To *to) : m_to( to) { ASSERT( m_to); }
 
         //! Выполняет копирование данных из заданной ячейки.
         template< class Cell_ > inline void operator( )( Cell_ *cell)
@@ -477,7 +477,7 @@ namespace Base
         template< class Cell_ > inline void CopyFrom( Cell_ *, Utility::False) { }
 
     private:
-        const To *m_to; //!< Назначение копирования.
+        To *m_to; //!< Назначение копирования.
     };
 }
 
-- 
2.43.0


From cab3a23b9de25716fff1ad42be5625b281807a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 072/106] fix: number of errors of an application is defined

---
 include/bcl/legacy/exception.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/legacy/exception.h b/include/bcl/legacy/exception.h
index 8e1e3f4..7b72f1c 100644
--- a/include/bcl/legacy/exception.h
+++ b/include/bcl/legacy/exception.h
@@ -567,6 +567,11 @@ namespace Base
         return Detail::ErrorCountInList< typename ErrorDecl_::ValueType >( );
     }
 
+    template< class Application_ > inline ErrorCode CountOfAppErrors( )
+    {
+        return Detail::ErrorCountInList< typename Application_::Errors >( );
+    }
+
     template< class ErrorId_, class Application_ > inline ErrorCode CodeOfError( )
     {
         return Detail::CodeOfErrorImp< ErrorId_, 
-- 
2.43.0


From 6eabfa2f83c78fdaa07d2d64f06b0ea1aaff4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 073/106] fix: value.h does not rely on names of another
 library

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 67a0ca4..0e980f5 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -29,8 +29,8 @@
 
 namespace Utility
 {
-    using DataBase::Text;
-    using DataBase::Char;
+    using Base::Text;
+    using Base::Char;
 
     //! Класс-обертка для значений заданного типа.
     /*! \tparam Type_ Тип значения.
-- 
2.43.0


From 89c654c9198792ba3ff006f8ffcceac66afc61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 074/106] fix: a branch without a subtree is not an ambiguous
 base of a static tree

---
 include/bcl/legacy/tree.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index d0c8d34..8cfdb5c 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -58,29 +58,31 @@ namespace Base
     };
 
     //! Дуга от вершины к левому поддереву.
-    /*! \tparam Left_ Корень левого поддерева.
+    /*! \tparam Id_ Идентификатор вершины, из которой выходит дуга.
+        \tparam Left_ Корень левого поддерева.
     */
-    template< class Left_ > class LeftBranchImp : public Left_
+    template< class Id_, class Left_ > class LeftBranchImp : public Left_
     { 
     protected:
         //! Создает дугу.
-        LeftBranchImp< Left_ >( ) { }
+        LeftBranchImp( ) { }
 
         //! Создает дугу.
-        LeftBranchImp< Left_ >( const Left_ &left) : Left_( left) { }
+        LeftBranchImp( const Left_ &left) : Left_( left) { }
     };
 
     //! Дуга от вершины к правому поддереву.
-    /*! \tparam Right_ Корень правого поддерева.
+    /*! \tparam Id_ Идентификатор вершины, из которой выходит дуга.
+        \tparam Right_ Корень правого поддерева.
     */
-    template< class Right_ > class RightBranchImp : public Right_ 
+    template< class Id_, class Right_ > class RightBranchImp : public Right_ 
     { 
     protected:
         //! Создает дугу.
-        RightBranchImp< Right_ >( ) { }
+        RightBranchImp( ) { }
 
         //! Создает дугу.
-        RightBranchImp< Right_ >( const Right_ &right) : Right_( right) { }
+        RightBranchImp( const Right_ &right) : Right_( right) { }
     };
 
     //! Статическое дерево.
@@ -90,8 +92,8 @@ namespace Base
     */
     template< class Id_, class Left_ = Utility::Null, class Right_ = Utility::Null >
     class Node : 
-        public LeftBranchImp< Left_ >, 
-        public RightBranchImp< Right_ >, 
+        public LeftBranchImp< Id_, Left_ >, 
+        public RightBranchImp< Id_, Right_ >, 
         public virtual Utility::If< Utility::IsReference< typename Id_::ValueType >,
                                     Utility::Unassignable,
                                     Utility::Copyable >::Result
@@ -101,10 +103,10 @@ namespace Base
         typedef typename Id::ValueType ValueType; //!< Тип значений, хранимых в корне.
 
         typedef Left_ Left; //!< Левое поддерево.
-        typedef LeftBranchImp< Left > LeftBranch; //!< Дуга к левому поддереву.
+        typedef LeftBranchImp< Id, Left > LeftBranch; //!< Дуга к левому поддереву.
 
         typedef Right_ Right; //!< Правое поддерево.
-        typedef RightBranchImp< Right > RightBranch; //!< Дуга к правому поддереву.
+        typedef RightBranchImp< Id, Right > RightBranch; //!< Дуга к правому поддереву.
 
         typedef Node< Id, Left, Right > Root; //!< Корень дерева.
 
-- 
2.43.0


From 39feb51b1a97491dd9d7a40862e3953ed0e6b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 075/106] fix: traversal of a static tree can be compiled

---
 include/bcl/legacy/tree.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index 8cfdb5c..b9ff46c 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -175,6 +175,12 @@ namespace Base
         ValueType m_value; //!< Значение хранимое в ячейке.
     };
 
+    //! Перегрузка для случая, когда поддерево отсутствует.
+    template< class Functor_ > void Visit( Utility::Null &, Functor_ &) { }
+
+    //! Перегрузка для случая, когда поддерево отсутствует.
+    template< class Functor_ > void Visit( const Utility::Null &, Functor_ &) { }
+
     //! Выполняет функционал над всеми вершинами дерева.
     /*! \tparam Root_ Корень дерева.
         \tparam Functor_ Функционал который должен быть выполнен.
-- 
2.43.0


From e2f7e98ac06db42e72871ccf128702efc69f106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 076/106] fix: an undefined value does not consist of
 indeterminate bits

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 0e980f5..900adbb 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -137,10 +137,10 @@ namespace Utility
 
     public:
         //! Конструктор умолчания, создает неопределенное значение.
-        Value( ) : m_defined( false){ }
+        Value( ) : m_value( ), m_defined( false){ }
 
         //! Конструктор копирования, неопределенного значения.
-        Value( Null) : m_defined( false) { }        
+        Value( Null) : m_value( ), m_defined( false) { }        
 
         //! Конструктор копирования на основе хранимого значения.
         Value( const Type &value) : 
-- 
2.43.0


From b1dae6f6b0cdd3c16a7a493f0157ec8ae74e1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 077/106] fix: a pointer is compared correctly with an
 undefined value

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 900adbb..839d5cf 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -271,10 +271,10 @@ namespace Utility
         operator const Type & ( ) const { return m_value; }        
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) { return m_value; }      
+        bool operator==( Null) { return !m_value; }      
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) const { return m_value; }      
+        bool operator==( Null) const { return !m_value; }      
 
         //! Оператор сравнения с неопределенным значением.
         bool operator!=( Null) { return m_value; }      
-- 
2.43.0


From aab4776b141c04c4492320dfc475e38dba130681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 078/106] fix: "less or equal" is not satisfied by equal values

---
 include/bcl/legacy/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 839d5cf..42ff13a 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -439,7 +439,7 @@ namespace Utility
     {
         if ( left == undef || right == undef)
                 return false;
-        return static_cast< const Left_ & >( left) < static_cast< const Right_ & >( right);
+        return static_cast< const Left_ & >( left) <= static_cast< const Right_ & >( right);
     }
     //! Оператор сравнения двух классов-оберток.
     /*! Выполняет сравнение на больше двух классов-оберток, 
-- 
2.43.0


From c122317b2c4dd47ed5921a5d9c362c1ac53fc7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 079/106] fix: comparison of a value which may be undefined
 with other one returns nothing

---
 include/bcl/legacy/value.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 42ff13a..b6b5f59 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -572,7 +572,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) < right;
+        return static_cast< const Left_ & >( left) < right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -586,7 +586,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) <= right;
+        return static_cast< const Left_ & >( left) <= right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -600,7 +600,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) > right;
+        return static_cast< const Left_ & >( left) > right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -614,7 +614,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) >= right;
+        return static_cast< const Left_ & >( left) >= right;
     }
 
     //! Оператор сравнения с неопределенным значением.    
-- 
2.43.0


From c4409c5f1a70bf2c2db722a43bb51d7523613f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 080/106] fix: json: type of a single field of a top-level
 object may contain commas

---
 include/bcl/JsonObjectMacros.h   | 2 +-
 scripts/json_object_macro_gen.pl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/JsonObjectMacros.h b/include/bcl/JsonObjectMacros.h
index 7c2255a..5d878a3 100644
--- a/include/bcl/JsonObjectMacros.h
+++ b/include/bcl/JsonObjectMacros.h
@@ -298,7 +298,7 @@
   JSON_ACCESS_30(Object_, Name_1_, Name_2_, Name_3_, Name_4_, Name_5_, Name_6_, Name_7_, Name_8_, Name_9_, Name_10_, Name_11_, Name_12_, Name_13_, Name_14_, Name_15_, Name_16_, Name_17_, Name_18_, Name_19_, Name_20_, Name_21_, Name_22_, Name_23_, Name_24_, Name_25_, Name_26_, Name_27_, Name_28_, Name_29_, Name_30_)
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \
-  JSON_VALUE(Name_, Type_) \
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \
   JSON_OBJECT_ROOT(Object_, Name_) \
   JSON_ACCESS(Object_, Name_)
 #define JSON_OBJECT_ROOT_PAIR_2(Object_, Name_1_, Type_1_, Name_2_, Type_2_) \
diff --git a/scripts/json_object_macro_gen.pl b/scripts/json_object_macro_gen.pl
index bdb06be..b93d50f 100644
--- a/scripts/json_object_macro_gen.pl
+++ b/scripts/json_object_macro_gen.pl
@@ -70,7 +70,7 @@ EOS
 print <<EOS;
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \\
-  JSON_VALUE(Name_, Type_) \\
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \\
   JSON_OBJECT_ROOT(Object_, Name_) \\
   JSON_ACCESS(Object_, Name_)
 EOS
-- 
2.43.0


From d3f3ef9c3d5b0e991c6e0c4170ae8eba0d11e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 081/106] fix: json: parsing of a character does not terminate
 a program if memory is exhausted

---
 include/bcl/Json.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 502206d..e889ae1 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1203,14 +1203,19 @@ String Parser<Objects...>::unescape(const String &Str) {
 
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
-    if (!Lex.checkValue())
-      return false;
-    auto Value = Lex.discardQuote();
-    auto Tmp = Traits<std::string>::unescape(
-      Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    if (Tmp.size() != 1)
+    try {
+      if (!Lex.checkValue())
+        return false;
+      auto Value = Lex.discardQuote();
+      auto Tmp = Traits<std::string>::unescape(
+        Lex.json().substr(Value.first, Value.second - Value.first + 1));
+      if (Tmp.size() != 1)
+        return false;
+      Dest = Tmp.front();
+    }
+    catch (...) {
       return false;
-    Dest = Tmp.front();
+    }
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
-- 
2.43.0


From 0a7dd1cd7dc4c5c947ff37c219947528a01421a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 082/106] fix: an element is not lost and a queue is not
 corrupted if memory is exhausted

---
 include/bcl/transparent_queue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 0a44fdf..2883160 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -28,6 +28,7 @@
 
 #include <assert.h>
 #include <cstring>
+#include <memory>
 #include <queue>
 #include <utility>
 
@@ -105,10 +106,13 @@ public:
         mValue = V;
         return;
       }
+      // If an exception is thrown the queue must not be changed.
+      std::unique_ptr<Container> Queue(new Container());
+      Queue->push(mValue);
+      Queue->push(V);
       mIsSingle = false;
-      auto Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
+      mQueue = Queue.release();
+      return;
     }
     mQueue->push(V);
   }
-- 
2.43.0


From 5180114675818c28a7e866935f0a0cc1e111d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 083/106] fix: a system of equations is consistent if memory is
 exhausted

---
 include/bcl/Equation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index a140d2b..af1bdd7 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -317,7 +317,12 @@ public:
   void push_back(typename EquationT::Monom LHS, typename EquationT::Monom RHS,
                  ValueT Constant) {
     mRows.emplace_back(LHS, RHS, Constant);
-    mIdx.push_back(mRows.size() - 1);
+    try {
+      mIdx.push_back(mRows.size() - 1);
+    } catch (...) {
+      mRows.pop_back();
+      throw;
+    }
   }
 
   /// Return the last equation.
-- 
2.43.0


From 1046512f7989d9489625411d54b6f246a72979e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 084/106] fix: a file is closed if redirection fails and memory
 is exhausted

---
 include/bcl/RedirectIO.h | 61 ++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index bc0bb10..33ede33 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -96,32 +96,33 @@ public:
       storeErrNo("fopen");
       return;
     }
-    if (dup2(fileno(mFile), mFromHandle) == -1) {
-      storeErrNo("dup2");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      mFile = nullptr;
-      return;
-    }
-    if (M == Mode::Append) {
-      // This is necessary to move position to the end of the file,
-      // otherwise a result of ftell() points to the beginning of the file.
-      while (fgetc(mFile) != EOF);
-      if (!std::feof(mFile)) {
-        storeErrNo("fgetc");
-        if (fclose(mFile) != 0)
-          storeErrNo("fclose");
-        mFile = nullptr;
+    try {
+      if (dup2(fileno(mFile), mFromHandle) == -1) {
+        storeErrNo("dup2");
+        close();
         return;
       }
-    }
-    mDiffStart = mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
-      storeErrNo("ftell");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      mFile = nullptr;
-      return;
+      if (M == Mode::Append) {
+        // This is necessary to move position to the end of the file,
+        // otherwise a result of ftell() points to the beginning of the file.
+        while (fgetc(mFile) != EOF);
+        if (!std::feof(mFile)) {
+          storeErrNo("fgetc");
+          close();
+          return;
+        }
+      }
+      mDiffStart = mDiffPos = std::ftell(mFile);
+      if (mDiffPos == -1) {
+        storeErrNo("ftell");
+        close();
+        return;
+      }
+    } catch (...) {
+      // Destructor is not called if a description of an error is not stored.
+      if (mFile)
+        fclose(mFile);
+      throw;
     }
   }
 
@@ -131,9 +132,7 @@ public:
     // Note that when move operation is executed mFile will be unset.
     if (!mFile)
       return;
-    if (fclose(mFile) != 0)
-      storeErrNo("fclose");
-    mFile = nullptr;
+    try { close(); } catch (...) {}
   }
 
   RedirectIO(const RedirectIO &) = delete;
@@ -245,6 +244,14 @@ public:
   }
 
 private:
+  /// Closes a target file.
+  void close() {
+    auto File = mFile;
+    mFile = nullptr;
+    if (fclose(File) != 0)
+      storeErrNo("fclose");
+  }
+
   /// Exchanges redirections.
   void swap(RedirectIO &Other) noexcept {
     mErrors.swap(Other.mErrors);
-- 
2.43.0


From f9c500b35d0283451e7bc10cec76f74e460ca909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 085/106] fix: output is appended to a redirected file if
 memory is exhausted in diff()

---
 include/bcl/RedirectIO.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 33ede33..fd51dc9 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -213,8 +213,14 @@ public:
     }
     char Buf[100];
     std::string Str;
-    while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
-      Str.append(Buf, Size);
+    try {
+      while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
+        Str.append(Buf, Size);
+    } catch (...) {
+      // The redirected descriptor uses the same position.
+      std::fseek(mFile, Pos, SEEK_SET);
+      throw;
+    }
     if (!std::feof(mFile)) {
       storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
-- 
2.43.0


From 502f5343fa4034dc074dff28d25a97e09426f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 086/106] fix: setDiffPos() remembers a current position after
 a failure of diff()

---
 include/bcl/RedirectIO.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index fd51dc9..c486210 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -241,6 +241,11 @@ public:
         storeErrNo(EINVAL, "ftell");
       return false;
     }
+    // A position which is known to the stream may be out of date.
+    if (std::fflush(mFile) != 0) {
+      storeErrNo("fflush");
+      return false;
+    }
     mDiffPos = std::ftell(mFile);
     if (mDiffPos == -1) {
       storeErrNo("ftell");
-- 
2.43.0


From 7b1847988d8c4869b9ba65475952b2d566acc347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 087/106] fix: a remembered position is not lost if
 setDiffPos() fails

---
 include/bcl/RedirectIO.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index c486210..0b4ddcd 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -246,11 +246,12 @@ public:
       storeErrNo("fflush");
       return false;
     }
-    mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
       storeErrNo("ftell");
       return false;
     }
+    mDiffPos = Pos;
     return true;
   }
 
-- 
2.43.0


From e692a3ecd6413941d51fc1fba7c738d1b72e64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 088/106] fix: listeners of a socket may be added when data are
 received

---
 lib/Socket/CSocket/CSocket.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 258efdf..0f507c0 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -32,6 +32,7 @@
 #include <cerrno>
 #include <csignal>
 #include <chrono>
+#include <deque>
 #include <future>
 #include <list>
 #include <string>
@@ -250,8 +251,9 @@ public:
         return 0;
       }
       mOn(bcl::net::SocketStatus::Receive, mConnection);
-      for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get(), ReceivedInfo.first));
+      // A callback may add other callbacks, they will receive next data.
+      for (std::size_t I = 0, EI = mReceiveCallbacks.size(); I < EI; ++I)
+        mReceiveCallbacks[I](std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
@@ -276,7 +278,8 @@ public:
   bcl::net::Connection mConnection;
   std::size_t mBufferSize;
   bcl::net::SocketStatusHandler mOn;
-  mutable std::vector<ReceiveCallback> mReceiveCallbacks;
+  // Note that references to callbacks must be valid after insertion of others.
+  mutable std::deque<ReceiveCallback> mReceiveCallbacks;
   mutable std::vector<ClosedCallback> mClosedCallbacks;
   mutable State mState = State::Open;
 };
-- 
2.43.0


From e513885901ca5df51056c4dd4e72ac6286bfcaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 089/106] fix: a connection is closed if its listener throws an
 exception

---
 lib/Socket/CSocket/CSocket.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 0f507c0..7d3fb4c 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -260,6 +260,15 @@ public:
       }
     }
   }
+
+  /// Close connection if it is not possible to serve it.
+  void abort() {
+    if (mState == State::Closed)
+      return;
+    mOn(bcl::net::SocketStatus::UnknownError, mConnection);
+    closeSocket(false);
+  }
+
   std::string Data;
  private:
   void closeSocket(bool IsOk) const {
@@ -270,8 +279,10 @@ public:
     } else {
       mOn(bcl::net::SocketStatus::Close, mConnection);
     }
-    for (auto &Callback : mClosedCallbacks)
-      Callback(IsOk);
+    for (auto &Callback : mClosedCallbacks) {
+      // Other callbacks must be called even if the current one fails.
+      try { Callback(IsOk); } catch (...) {}
+    }
   }
 
   SocketT mConnectionFD;
@@ -355,7 +366,12 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     [BufferSize, &on, closeAndLog](
         SocketT ConnectionFD, net::Connection &&C) -> int {
       auto Engine = bcl::make_unique<SocketImp>(ConnectionFD, C, BufferSize, on);
-      return Engine->run();
+      try {
+        return Engine->run();
+      } catch (...) {
+        Engine->abort();
+        return 1;
+      }
     };
   auto sanitizeConnections = [&ActiveSockets]() {
     auto Size = ActiveSockets.size();
-- 
2.43.0


From 0723580bfc608a113f150f3bda46442bb2bf0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 090/106] fix: json: kind of a current token is defined before
 the first token is read

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index e889ae1..cea5b92 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -704,7 +704,7 @@ private:
   Position mStart = 0;
   Position mEnd = 0;
   Position mNext = 0;
-  Token mToken;
+  Token mToken = Token::INVALID;
   bool mIsIntegral = false;
   Keyword mKeyword = Keyword::NO_VALUE;
   std::stack<State> mStates;
-- 
2.43.0


From baa659b5bab2fcc26bb721bb1fd367494f0fdc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 091/106] fix: json: a keyword is restored together with its
 position

---
 include/bcl/Json.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index cea5b92..70ee949 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -443,14 +443,15 @@ class Lexer: private bcl::Uncopyable {
 
   /// State of a lexer.
   struct State {
-    State(Position S, Position E, Position N, Token T, bool IsInt) :
-      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
+    State(Position S, Position E, Position N, Token T, bool IsInt, Keyword K) :
+      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt), mKeyword(K) {}
 
     Position mStart = 0;
     Position mEnd = 0;
     Position mNext = 0;
     Token mToken;
     bool mIsIntegral = false;
+    Keyword mKeyword = Keyword::NO_VALUE;
   };
 
 public:
@@ -631,7 +632,7 @@ public:
   /// Saves the current position in an internal stack, it can be restored with
   /// restorePosition() method.
   void storePosition() {
-    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
+    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral, mKeyword));
   }
 
   /// Restores the last stored position. If there is no stored positions do
@@ -644,6 +645,7 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mKeyword = mStates.top().mKeyword;
     mStates.pop();
   }
 
-- 
2.43.0


From 4c728341761e6c3722c486603c79ab6815c72a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 092/106] fix: json: a stored position is not replaced if keys
 of an array can not be counted

---
 include/bcl/Json.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 70ee949..7761f33 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1855,7 +1855,9 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
 
 template<class... Objects> std::tuple<Position, Position, bool>
 Parser<Objects...>::numberOfKeys(Lexer &Lex) {
-  Lex.storePosition();
+  // Do not use storePosition() because the stored position should be removed
+  // in case of errors.
+  auto Start = Lex.start();
   Position MaxIdx = 0;
   Position Count = 0;
   std::set<unsigned long long> Indexes;
@@ -1869,7 +1871,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   if (!Lex.goToNext())
     return std::make_tuple(0, 0, false);
   if (Lex.is(Last)) {
-    Lex.restorePosition();
+    Lex.setPosition(Start);
     return std::make_tuple(0, 0, true);
   }
   for (;;) {
@@ -1904,7 +1906,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
     if (!Lex.goToNext())
       return std::make_tuple(0, 0, false);
   }
-  Lex.restorePosition();
+  Lex.setPosition(Start);
   return std::make_tuple(
     Count, Last == Token::RIGHT_BRACE ? MaxIdx : Count - 1, true);
 }
-- 
2.43.0


From e999c86ee302deafa3ea87d183aecb609d88c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 093/106] fix: json: a key and an identifier of a serialized
 object are escaped

---
 include/bcl/Json.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 7761f33..ea87d90 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -877,10 +877,7 @@ template<class... Objects> class Parser {
         "The first character in a JSON string must be '{'");
       assert(mString.back() == '}' &&
         "The last character in a JSON string must be '}'");
-      std::string Name("\"");
-      Name += mNameKey;
-      Name += "\":\"";
-      Name += mObj.getName() + "\"";
+      std::string Name = quote(mNameKey) + ':' + quote(mObj.getName());
       if (mString.find(':') != String::npos)
         Name += ',';
       mString.insert(1, Name);
@@ -1087,6 +1084,9 @@ private:
 
   /// Replaces escape sequences in a specified string.
   static String unescape(const String &Str);
+
+  /// Adds escape sequences and limiting quotes to a specified string.
+  static String quote(const String &Str);
 private:
   Lexer mLex;
   Position mNameStart = 0;
@@ -1203,6 +1203,13 @@ String Parser<Objects...>::unescape(const String &Str) {
   return Traits<std::string>::unescape(Str);
 }
 
+template<class... Objects>
+String Parser<Objects...>::quote(const String &Str) {
+  String JSON;
+  Traits<std::string>::unparse(JSON, Str);
+  return JSON;
+}
+
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
     try {
-- 
2.43.0


From 8fc3239721c5a393a93d0fc75f1a59bc7f3ada61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 094/106] fix: a request is rejected if its evaluation throws

---
 include/bcl/IntrusiveConnection.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 8c4fe40..608c5b2 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -121,6 +121,8 @@ public:
   /// \return true on success, otherwise returns false. If this function
   /// returns false then function 'F' has not been invoked, connection
   /// is broken and socket is closed.
+  /// If function 'F' throws an exception the request is rejected, the exception
+  /// is passed to a caller and connection remains open.
   template<class Function> bool answer(Function F) {
     if (!mStatus)
       return false;
@@ -146,13 +148,15 @@ public:
       mStatus = nullptr;
       return false;
     }
-    Data = F(Data);
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mSendData = Data;
-      mStatus->mIsSend = true;
-      mStatus->mSendEvent.notify_one();
+    // If the request can not be evaluated it must be rejected, otherwise
+    // the client and the next call of this method will wait for each other.
+    try {
+      Data = F(Data);
+    } catch (...) {
+      respond(Reject());
+      throw;
     }
+    respond(std::move(Data));
     return true;
   }
 
@@ -245,6 +249,14 @@ public:
   }
 
 private:
+  /// Passes a response to the last received request to a socket.
+  void respond(std::string Data) {
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mSendData = std::move(Data);
+    mStatus->mIsSend = true;
+    mStatus->mSendEvent.notify_one();
+  }
+
   Status *mStatus;
 };
 }
-- 
2.43.0


From e98ccc09111445ecc360b2d3da457e80095cd223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 095/106] fix: requests are rejected and nothing is lost if a
 connection can not be started

---
 include/bcl/IntrusiveConnection.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 608c5b2..bdf2a1b 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -58,6 +58,7 @@
 
 #include "Socket.h"
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 #include <queue>
 #include <sstream>
@@ -182,11 +183,13 @@ public:
   template<class Function, class... ArgsTy>
   static void connect(const bcl::Socket<std::string> *S,
       char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
-    std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
-    Engine.detach();
-    auto *Reject = new bool(false);
+    std::unique_ptr<Status> StatusHolder(new Status);
+    std::unique_ptr<bool> RejectHolder(new bool(false));
+    auto *CS = StatusHolder.get();
+    auto *Reject = RejectHolder.get();
+    // If an exception is thrown below, this connection will be closed, so
+    // the listeners, which have been already set, will reject all requests.
+    IntrusiveConnection Connection(CS);
     S->closed([Reject, CS](bool) {
       if (!*Reject) {
         {
@@ -202,6 +205,8 @@ public:
       }
       delete Reject;
     });
+    StatusHolder.release();
+    RejectHolder.release();
     // It is not possible to store socket S in connection status CS, because
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
@@ -241,11 +246,14 @@ public:
           CS->mSendData.clear();
           CS->mIsSend = false;;
         }
-        S->send(Data + Delimiter);
         if (*Reject)
           delete CS;
+        S->send(Data + Delimiter);
       }
     });
+    std::thread Engine(std::forward<Function>(F),
+      std::move(Connection), std::forward<ArgsTy>(Args)...);
+    Engine.detach();
   }
 
 private:
-- 
2.43.0


From 313b66b6647e7377c61c100ae087470dcfba851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 096/106] fix: a request which can not be stored is not handed
 over

---
 include/bcl/IntrusiveConnection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index bdf2a1b..e5fb9bd 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -229,8 +229,8 @@ public:
         }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mIsReceive = true;
           CS->mReceiveData = Buffer.front();
+          CS->mIsReceive = true;
         }
         CS->mReceiveEvent.notify_one();
         Buffer.pop();
-- 
2.43.0


From 66483f2cc47df596e8f686ef86e74793958a76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 097/106] fix: a request is not truncated if memory is
 exhausted

---
 include/bcl/IntrusiveConnection.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index e5fb9bd..a4c040b 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -57,11 +57,12 @@
 #define BCL_INTRUSIVE_CONNECTION_H
 
 #include "Socket.h"
+#include <algorithm>
 #include <condition_variable>
 #include <memory>
 #include <mutex>
 #include <queue>
-#include <sstream>
+#include <string>
 #include <thread>
 #include <utility>
 
@@ -212,15 +213,16 @@ public:
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
       std::queue<std::string> Buffer;
-      std::stringstream IS(Request);
-      std::string Item;
-      while (std::getline(IS, Item, Delimiter) && !IS.eof())
-        Buffer.push(Item);
       // If there is no delimiter after last not empty string than this
       // substring will be treated as a separate request.
       // The last empty substring will be ignored.
-      if (!Item.empty())
-        Buffer.push(Item);
+      // Note that std::getline() can not be used here, because it does not
+      // propagate an exception if memory is exhausted.
+      for (std::size_t Pos = 0; Pos < Request.size();) {
+        auto End = std::min(Request.find(Delimiter, Pos), Request.size());
+        Buffer.push(Request.substr(Pos, End - Pos));
+        Pos = End + 1;
+      }
       while (!Buffer.empty()) {
         if (*Reject) {
           Buffer.pop();
-- 
2.43.0


From 54bdbbd02acb1060d25cc4068945ebbee22e6a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 098/106] fix: an array is not created if a number of its
 elements overflows

---
 include/bcl/marray.h   | 14 ++++++++++++++
 include/bcl/marray_f.h | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 7881428..221e2c5 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -32,6 +32,8 @@
 
 #include <bcl/utility.h>
 #include <array>
+#include <limits>
+#include <new>
 
 namespace bcl {
 template<typename Ty, std::size_t Size, typename marray>
@@ -79,6 +81,18 @@ class marray {
       mOffset[I-1] = mOffset[I] * mDims[I];
     }
     FullSize *= mDims[0];
+    // If there are too many elements, their number overflows and may be small.
+    auto MaxSize = std::numeric_limits<std::size_t>::max();
+    for (auto Dim : mDims) {
+      if (Dim == 0) {
+        // The array is empty.
+        MaxSize = 1;
+        break;
+      }
+      MaxSize /= Dim;
+    }
+    if (MaxSize == 0)
+      throw std::bad_array_new_length();
     mData = new Ty [FullSize];
   }
 public:
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index bf549f3..44e7f81 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -32,6 +32,8 @@
 
 #include <bcl/utility.h>
 #include <array>
+#include <limits>
+#include <new>
 
 namespace bcl {
 /// Represent a multidimensional array.
@@ -49,6 +51,18 @@ class marray_f {
       mOffset[I-1] = mOffset[I] * mDims[I];
     }
     FullSize *= mDims[0];
+    // If there are too many elements, their number overflows and may be small.
+    auto MaxSize = std::numeric_limits<size_t>::max();
+    for (auto Dim : mDims) {
+      if (Dim == 0) {
+        // The array is empty.
+        MaxSize = 1;
+        break;
+      }
+      MaxSize /= Dim;
+    }
+    if (MaxSize == 0)
+      throw std::bad_array_new_length();
     mData = new Ty [FullSize];
   }
 
-- 
2.43.0


From c533f8b8e24d1b5add9e4ee6b95fd39921144ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 099/106] fix: headers do not rely on what their users include

---
 include/bcl/CSocket.h         | 2 ++
 include/bcl/Diagnostic.h      | 2 ++
 include/bcl/Json.h            | 1 +
 include/bcl/ValuePtrWrapper.h | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/include/bcl/CSocket.h b/include/bcl/CSocket.h
index 7d76c49..bfa7b92 100644
--- a/include/bcl/CSocket.h
+++ b/include/bcl/CSocket.h
@@ -36,7 +36,9 @@
 #define BCL_C_SOCKET_H
 
 #include <bcl/Socket.h>
+#include <cstdint>
 #include <functional>
+#include <string>
 
 namespace bcl {
 namespace net {
diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 275d48a..6497118 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -28,6 +28,8 @@
 #ifndef BCL_DIAGNOSTIC_H
 #define BCL_DIAGNOSTIC_H
 
+#include <cstdint>
+#include <cstdio>
 #include <cstring>
 #include <memory>
 #include <vector>
diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ea87d90..f8d4a73 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -231,6 +231,7 @@
 #include <cctype>
 #include <charconv>
 #include <cmath>
+#include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <limits>
diff --git a/include/bcl/ValuePtrWrapper.h b/include/bcl/ValuePtrWrapper.h
index 13916e4..dffd570 100644
--- a/include/bcl/ValuePtrWrapper.h
+++ b/include/bcl/ValuePtrWrapper.h
@@ -25,6 +25,8 @@
 #ifndef BCL_VALUE_PTR_WRAPPER_H
 #define BCL_VALUE_PTR_WRAPPER_H
 
+#include <utility>
+
 namespace bcl {
 /// This is a wrapper for a value of a specified type `T` which knows a pointer
 /// referenced this value.
-- 
2.43.0


From e674e793aefeac43782bd43357bca803034a7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 100/106] fix: json: conversion of floating point numbers
 depends on a locale

---
 include/bcl/Json.h | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index f8d4a73..9b2ec8f 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1307,6 +1307,13 @@ template<> struct Traits<unsigned long long> {
 };
 
 namespace detail {
+/// Returns a decimal point which the C library uses in a current locale.
+inline std::string_view decimalPoint(char (&Buf)[16]) noexcept {
+  auto Size = std::snprintf(Buf, sizeof(Buf), "%.1f", 0.0);
+  return Size > 2 && Size < static_cast<int>(sizeof(Buf)) ?
+    std::string_view(Buf + 1, Size - 2) : std::string_view(".");
+}
+
 /// Converts a currently evaluated value to a floating point number, the whole
 /// value must be a finite number which does not overflow a specified type.
 template<class Ty> bool parseFloatingPoint(Ty &Dest, Lexer &Lex,
@@ -1315,6 +1322,21 @@ template<class Ty> bool parseFloatingPoint(Ty &Dest, Lexer &Lex,
   if (!Traits<std::string>::parse(Str, Lex) || Str.empty() ||
       std::isspace(Str.front()))
     return false;
+  // Conversion depends on a current locale while JSON does not.
+  char Buf[16];
+  auto Point = decimalPoint(Buf);
+  if (Point != ".") {
+    if (Str.find(Point) != std::string::npos)
+      return false;
+    try {
+      auto Pos = Str.find('.');
+      if (Pos != std::string::npos)
+        Str.replace(Pos, 1, Point);
+    }
+    catch (...) {
+      return false;
+    }
+  }
   char *End = nullptr;
   Dest = Convert(Str.c_str(), &End);
   return End == Str.c_str() + Str.size() && std::isfinite(Dest);
@@ -1325,7 +1347,16 @@ template<class Ty> void unparseFloatingPoint(String &JSON, Ty Obj) {
   char Buf[64];
   std::snprintf(Buf, sizeof(Buf), "%.*g",
     std::numeric_limits<Ty>::max_digits10, Obj);
-  JSON += Buf;
+  // Conversion depends on a current locale while JSON does not.
+  char PointBuf[16];
+  auto Point = decimalPoint(PointBuf);
+  std::string_view Str(Buf);
+  auto Pos = Str.find(Point);
+  JSON += Str.substr(0, Pos);
+  if (Pos != std::string_view::npos) {
+    JSON += '.';
+    JSON += Str.substr(Pos + Point.size());
+  }
 }
 }
 
-- 
2.43.0


From 2a7da637667f2dd9d0de3ff9d49bec7eaf75434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 101/106] fix: json: tokens depend on a locale

---
 include/bcl/Json.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 9b2ec8f..5e5f971 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -411,6 +411,18 @@ class Lexer: private bcl::Uncopyable {
     return Ch == static_cast<char>(Token::ESCAPE);
   }
 
+  /// Checks whether a specified character Ch is a white space, this does not
+  /// depend on a locale.
+  static inline bool isSpace(char Ch) noexcept {
+    return Ch == ' ' || (Ch >= '\t' && Ch <= '\r');
+  }
+
+  /// Checks whether a specified character Ch is a Latin letter, this does not
+  /// depend on a locale.
+  static inline bool isAlpha(char Ch) noexcept {
+    return (Ch >= 'a' && Ch <= 'z') || (Ch >= 'A' && Ch <= 'Z');
+  }
+
   /// Checks whether a specified character Ch is dot.
   static inline bool isDot(char Ch) noexcept {
     return Ch == static_cast<char>(Token::DOT);
@@ -467,7 +479,7 @@ public:
   /// have been occurred they will be stored in errors() container and this
   /// returns `false`.
   bool goToNext() {
-    for (; mNext < mJSON.size() && std::isspace(mJSON[mNext]); ++mNext);
+    for (; mNext < mJSON.size() && isSpace(mJSON[mNext]); ++mNext);
     mToken = Token::INVALID;
     if (mNext >= mJSON.size()) {
       mErrors.insert(JSON_ERROR(1), mNext);
@@ -517,7 +529,7 @@ public:
       mNext = mNext < mJSON.size() ? mNext : mJSON.size();
       mEnd = mNext - 1;
       return true;
-    } else if (std::isalpha(mJSON[mNext])) {
+    } else if (isAlpha(mJSON[mNext])) {
       if (auto K{[this](std::string_view S) {
             for (std::size_t I = 0,
                              EI = sizeof KeywordTable / sizeof KeywordTable[0];
@@ -537,7 +549,7 @@ public:
     }
     mEnd = mNext;
     // Letters are reserved to encode tokens which are not a single character.
-    if (!std::isalpha(mJSON[mStart]))
+    if (!isAlpha(mJSON[mStart]))
       mToken = static_cast<Token>(mJSON[mStart]);
     ++mNext;
     return true;
-- 
2.43.0


From 6ad92f95052807d567e7aab4bdfa5999788be6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 102/106] fix: json: keywords are recognized without search for
 the end of a document

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 5e5f971..6e3498a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -544,7 +544,7 @@ public:
               }
             }
             return false;
-          }(mJSON.data() + mNext)})
+          }(std::string_view{mJSON}.substr(mNext))})
         return true;
     }
     mEnd = mNext;
-- 
2.43.0


From e9cd60664837e6912b708c05a9c2790927d3bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 103/106] fix: json: escape sequences are added without moving
 the rest of a string

---
 include/bcl/Json.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 6e3498a..baaf5d8 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1204,10 +1204,14 @@ template<> struct Traits<std::string> {
     return true;
   }
   inline static void unparse(String &JSON, const std::string &Obj) {
-    auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
-    for (; I < JSON.size() - 1; ++I)
-      I = escape(JSON, I);
+    // A character is escaped while it is the last one, otherwise all characters
+    // after it must be moved.
+    JSON += '"';
+    for (auto Ch : Obj) {
+      JSON += Ch;
+      escape(JSON, JSON.size() - 1);
+    }
+    JSON += '"';
   }
 };
 
@@ -1482,12 +1486,7 @@ template<> struct Traits<char *> {
   inline static void unparse(String &JSON, const char *Obj) {
     if (!Obj)
       return;
-    auto I = JSON.size() + 1;
-    JSON += "\"";
-    JSON += Obj;
-    JSON += "\"";
-    for (; I < JSON.size() - 1; ++I)
-      I = Traits<std::string>::escape(JSON, I);
+    Traits<std::string>::unparse(JSON, Obj);
   }
 };
 
-- 
2.43.0


From e819d30b64cb7da84765edd1c4cf140769a918ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 104/106] fix: csocket: a connection is not closed if there is
 no memory to serve it

---
 lib/Socket/CSocket/CSocket.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 7d3fb4c..d1c72fb 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -365,11 +365,17 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
   auto engine =
     [BufferSize, &on, closeAndLog](
         SocketT ConnectionFD, net::Connection &&C) -> int {
-      auto Engine = bcl::make_unique<SocketImp>(ConnectionFD, C, BufferSize, on);
+      std::unique_ptr<SocketImp> Engine;
       try {
+        Engine = bcl::make_unique<SocketImp>(ConnectionFD, C, BufferSize, on);
         return Engine->run();
       } catch (...) {
-        Engine->abort();
+        if (Engine) {
+          Engine->abort();
+        } else {
+          on(net::SocketStatus::UnknownError, C);
+          closeAndLog(ConnectionFD, C);
+        }
         return 1;
       }
     };
-- 
2.43.0


From e1220ce80cd2a08eba379ad26442915e83a39043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 105/106] fix: csocket: a server ends if there is no memory for
 a new connection

---
 lib/Socket/CSocket/CSocket.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index d1c72fb..61b3862 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -33,10 +33,10 @@
 #include <csignal>
 #include <chrono>
 #include <deque>
+#include <exception>
 #include <future>
 #include <list>
 #include <string>
-#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -416,10 +416,17 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
+    auto ActiveSocket = ActiveSockets.end();
     try {
-      ActiveSockets.push_back(std::async(std::launch::async,
-        engine, ConnectionFD, net::Connection(NewConnection)));
-    } catch (const std::system_error &) {
+      // Memory is necessary before a thread is launched, because the thread
+      // closes the connection.
+      ActiveSocket = ActiveSockets.emplace(ActiveSocket);
+      *ActiveSocket = std::async(std::launch::async,
+        engine, ConnectionFD, net::Connection(NewConnection));
+    } catch (const std::exception &) {
+      // A thread or memory is not available.
+      if (ActiveSocket != ActiveSockets.end())
+        ActiveSockets.erase(ActiveSocket);
       on(net::SocketStatus::UnknownError, NewConnection);
       closeAndLog(ConnectionFD, NewConnection);
     }
-- 
2.43.0


From 7c579965e9fc04fb4a91548579b5e642d9d82d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 106/106] fix: servers started at the same time take addresses
 of each other

The result of gethostbyname() is shared by all threads: a server could be
bound to an address requested for another one.
---
 lib/Socket/CSocket/CSocket.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 61b3862..f4db940 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -152,11 +152,15 @@ static inline bool getAddressInfo(int Domain, int Type, int Protocol,
   if (Address.empty()) {
     Result.Address.sin_addr.s_addr = INADDR_ANY;
   } else {
-    auto Host = gethostbyname(Address.c_str());
-    if (!Host)
+    // Note that other servers may be started at the same time.
+    addrinfo Hints{}, *Host = nullptr;
+    Hints.ai_family = Domain;
+    Hints.ai_socktype = Type;
+    Hints.ai_protocol = Protocol;
+    if (getaddrinfo(Address.c_str(), nullptr, &Hints, &Host) != 0)
       return false;
-    memmove(&Result.Address.sin_addr.s_addr,
-      Host->h_addr_list[0], Host->h_length);
+    Result.Address.sin_addr = ((sockaddr_in *)Host->ai_addr)->sin_addr;
+    freeaddrinfo(Host);
   }
   return true;
 }
-- 
2.43.0

