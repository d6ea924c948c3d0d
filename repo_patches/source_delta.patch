From ae4f68ee8892fdfcb8800625f24c56bbceb5fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 01/78] fix: full() and empty() of the array blocking queue
 read the element count while other threads write it

---
 src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
index db186db..4d7c3db 100644
--- a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
+++ b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
@@ -29,6 +29,7 @@
 #include <Balau/Container/BlockingQueue.hpp>
 #include <Balau/Type/StdTypes.hpp>
 
+#include <atomic>
 #include <condition_variable>
 
 namespace Balau::Container {
@@ -233,7 +234,7 @@ template <typename T> class ArrayBlockingQueue : public BlockingQueue<T> {
 	}
 
 	private: std::vector<T> elements;
-	private: size_t count;
+	private: std::atomic<size_t> count;
 	private: size_t head;
 	private: size_t tail;
 	private: std::mutex mutex;
-- 
2.43.0


From a394284db185daad93b4bd34aab54054bde86501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 02/78] fix: the executed flag of the single time executor is
 never initialised

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..25225fc 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -122,7 +122,7 @@ class SingleTimeExecutor {
 
 	private: std::function<void ()> code;
 	private: std::function<void ()> destructorCode;
-	private: std::atomic<bool> executed;
+	private: std::atomic<bool> executed = false;
 	private: std::mutex mutex;
 };
 
-- 
2.43.0


From ee2ee3cd3573b9b1c9e4bd68668ff72ecc1c3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 03/78] fix: end() of an object trie node points at the last
 child instead of past it

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index bebd49f..e26f713 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -753,28 +753,28 @@ template <typename T> class ObjectTrieNode {
 	/// Get a depth iterator positioned at the beginning of the trie.
 	///
 	public: ObjectTrieNode<T> * begin() {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get a const depth iterator positioned at the beginning of the trie.
 	///
 	public: const ObjectTrieNode<T> * begin() const {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get an iterator positioned at the end of the vector of children.
 	///
 	public: ObjectTrieNode<T> * end() {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	///
 	/// Get a const iterator positioned at the end of the vector of children.
 	///
 	public: const ObjectTrieNode<T> * end() const {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From e03aec6df55bc5420a822ea773df700b26bd5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 04/78] fix: cascading an object trie applies the supplied copy
 or move function only to the first levels

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index e26f713..fe42483 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -813,16 +813,16 @@ template <typename T> class ObjectTrieNode {
 	}
 
 	// Used in the public cascade copy method.
-	private: void cascadeChildren(const ObjectTrieNode<T> & toCascade) {
+	private: template <typename U> void cascadeChildren(const ObjectTrieNode<T> & toCascade, U copyFunction) {
 		for (size_t m = 0; m < toCascade.children.size(); m++) {
 			const ObjectTrieNode<T> & childToCascade = toCascade.children[m];
 			ObjectTrieNode<T> * selfChild = find(childToCascade.value);
 
 			if (selfChild) {
-				selfChild->value = childToCascade.value;
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->value = copyFunction(childToCascade.value);
+				selfChild->cascadeChildren(childToCascade, copyFunction);
 			} else {
-				addAndReturnChild(childToCascade.value).cascadeChildren(childToCascade);
+				addAndReturnChild(copyFunction(childToCascade.value)).cascadeChildren(childToCascade, copyFunction);
 			}
 		}
 	}
@@ -835,9 +835,9 @@ template <typename T> class ObjectTrieNode {
 
 			if (selfChild) {
 				selfChild->value = moveFunction(childToCascade.value);
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->cascadeChildren(childToCascade, moveFunction);
 			} else {
-				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade);
+				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade, moveFunction);
 			}
 		}
 	}
@@ -2298,7 +2298,7 @@ template <typename T> class ObjectTrie {
 		}
 
 		trieRoot.value = copyFunction(toCascade.trieRoot.value);
-		trieRoot.cascadeChildren(toCascade.trieRoot);
+		trieRoot.cascadeChildren(toCascade.trieRoot, copyFunction);
 	}
 
 	///
-- 
2.43.0


From d63b5570a21a48de1f85993e52e2a3f8346a4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 05/78] fix: object tries cannot be copy assigned because the
 node's copy assignment is private

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index fe42483..a2429b8 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -799,7 +799,7 @@ template <typename T> class ObjectTrieNode {
 	private: explicit ObjectTrieNode(T && value_)
 		: value(std::move(value_)) {}
 
-	private: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
+	public: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
 		value = copy.value;
 		children = copy.children;
 		return *this;
-- 
2.43.0


From 25cbc7a2036284f40f28be781f6406b893e13abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 06/78] fix: the digits 8 and 9 are classified as octal digits

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index b44c4ee..3809b88 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -71,7 +71,7 @@ struct Character {
 	/// Is the specified code point one of the ASCII characters 0-7.
 	///
 	static bool isOctalDigit(char32_t c) {
-		return c >= U'0' && c <= U'9';
+		return c >= U'0' && c <= U'7';
 	}
 
 	///
-- 
2.43.0


From d466975e557eecbe8bcc8489458c228fc7ae8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 07/78] fix: the last code point is rejected as invalid

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index 3809b88..95631c4 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -301,7 +301,7 @@ struct Character {
 	/////////////////////////////// Validation ////////////////////////////////
 
 	static bool isValid(char32_t c) {
-		return c < 0x10FFFF; // Maximum Unicode code point value.
+		return c <= 0x10FFFF; // Maximum Unicode code point value.
 	}
 
 	//////////////////////////////// Mutation /////////////////////////////////
-- 
2.43.0


From 84d4a7de98953742ec7e9ee491acf42519ca89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 08/78] fix: converting the lowest int or long to a string
 writes past the end of the buffer

---
 src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
index a628f3d..52c67b0 100644
--- a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
@@ -38,7 +38,7 @@ template <typename T, unsigned long N = std::numeric_limits<T>::max()> struct Ch
 };
 
 template <typename T> struct CharacterCount<T, 0> {
-	static constexpr size_t count = 1;
+	static constexpr size_t count = 2; // The sign and the null terminator.
 };
 
 template <typename AllocatorT, typename T>
-- 
2.43.0


From a8ee960c71e5dac779b765b2c14f5e6d7bcfb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 09/78] fix: string to number conversions accept values outside
 the range of 64 bit and floating point types and negative unsigned values

---
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 6ac0ba3..2e23774 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -25,6 +25,9 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
+#include <cerrno>
+#include <cmath>
+
 namespace Balau::Impl {
 
 // Checks that the string is not empty and throws a conversion exception if it is.
@@ -75,6 +78,18 @@ inline void validateIntegerConversion(const std::string & value, const char * st
 	}
 }
 
+// Checks that the value was in range of the numeric type that the C library function converts to.
+inline void validateConversionRange(const std::string & value, bool inRange) {
+	using ::toString;
+
+	if (!inRange) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, toString("String to numeric conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
 template <typename DstT, typename SrcT> void checkLowerLimit(SrcT n) {
 	const SrcT lowerLimit = std::numeric_limits<DstT>::lowest();
 
@@ -124,8 +139,10 @@ inline long stringToLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -133,8 +150,10 @@ inline long stringToLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -142,8 +161,10 @@ inline long long stringToLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -151,8 +172,10 @@ inline long long stringToLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -160,8 +183,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && (n == 0 || s.find('-') == std::string::npos));
 	return n;
 }
 
@@ -169,8 +194,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && (n == 0 || s.find('-') == std::string::npos));
 	return n;
 }
 
@@ -178,8 +205,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && (n == 0 || s.find('-') == std::string::npos));
 	return n;
 }
 
@@ -187,8 +216,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value, int b
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && (n == 0 || s.find('-') == std::string::npos));
 	return n;
 }
 
@@ -196,8 +227,10 @@ inline float stringToFloat(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	float n = std::strtof(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE || std::fabs(n) <= 1);
 	return n;
 }
 
@@ -205,8 +238,10 @@ inline double stringToDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	double n = std::strtod(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE || std::fabs(n) <= 1);
 	return n;
 }
 
@@ -214,8 +249,10 @@ inline long double stringToLongDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long double n = std::strtold(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE || std::fabs(n) <= 1);
 	return n;
 }
 
-- 
2.43.0


From c7c82070524b4ba337d12dd41df85185de410ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 10/78] fix: counting or replacing the empty string never ends

---
 src/main/cpp/Balau/Util/Impl/StringsImpl.hpp | 4 ++++
 src/main/cpp/Balau/Util/Strings.hpp          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
index 4d5e42c..4b53e3e 100644
--- a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
@@ -43,6 +43,10 @@ void replaceAllImpl(StringT<CharT, T ...> & input, const MatchT & match, const R
 		*count = 0;
 	}
 
+	if (matchLength == 0) {
+		return;
+	}
+
 	while (true) {
 		pos = input.find(match, pos);
 
diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index f9c96d0..2329007 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -226,6 +226,10 @@ struct Strings final {
 		size_t index = 0;
 		size_t count = 0;
 
+		if (Balau::Util::Impl::length(substring) == 0) {
+			return 0;
+		}
+
 		while ((index = str.find(substring, index)) != StringT<CharT, T ...>::npos) {
 			index += Balau::Util::Impl::length(substring);
 			++count;
-- 
2.43.0


From 682f18f4ec47aa05a5dd3492bad339ed85396c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 11/78] fix: pretty printing of zero, negative values, high
 bytes, ungrouped bytes and rounded up durations

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 78 ++++++++++++-------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 7e0c408..867206a 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -71,7 +71,8 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string metricPrefix(const T & value, size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10(value) / std::log10(1000.0));
+		// Zero has no logarithm and negative values are scaled as their magnitude is.
+		auto prefix = value == 0 ? 0 : (int) std::floor(std::log10(std::fabs(value)) / std::log10(1000.0));
 
 		if (prefix > 6) {
 			prefix = 6;
@@ -94,7 +95,8 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string binaryPrefix(const T & value, const size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10((long double) value) / std::log10((long double) 1024.0));
+		// Zero has no logarithm and negative values are scaled as their magnitude is.
+		auto prefix = value == 0 ? 0 : (int) std::floor(std::log10(std::fabs((long double) value)) / std::log10((long double) 1024.0));
 
 		if (prefix > 6) {
 			prefix = 6;
@@ -122,8 +124,6 @@ struct PrettyPrint final {
 	///
 	template <typename Rep, typename Period> static
 	std::string duration(std::chrono::duration<Rep, Period> d, const size_t decimalPlaces = 0) {
-		using Days = std::chrono::duration<int, std::ratio<86400>>;
-
 		long double totalSeconds = (long double) d.count() / (long double) Period::den * (long double) Period::num;
 
 		std::ostringstream builder;
@@ -133,49 +133,41 @@ struct PrettyPrint final {
 			totalSeconds = -totalSeconds;
 		}
 
-		const long double fraction = totalSeconds - (long double) (unsigned long long) totalSeconds;
+		const auto wholeSeconds = (unsigned long long) totalSeconds;
+		const long double fraction = totalSeconds - (long double) wholeSeconds;
 
 		if (totalSeconds == 0.0) {
 			return "0s";
 		} else if (totalSeconds < 60.0) {
 			builder << metricPrefix(totalSeconds, decimalPlaces) <<  "s";
 			return builder.str();
-		} else if (totalSeconds < 60.0 * 60.0) { // print minutes::seconds.fraction
-			builder.fill('0');
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
-		} else if (totalSeconds < 60.0 * 60.0 * 24.0) { // print hours::minutes::seconds.fraction
-			builder.fill('0');
-			auto hours = std::chrono::duration_cast<std::chrono::hours>(d);
-			d -= hours;
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) <<   hours.count() << "h"
-			        << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
-		} else { // print days::hours::minutes::seconds.fraction
-			builder.fill('0');
-			auto days = std::chrono::duration_cast<Days>(d);
-			d -= days;
-			auto hours = std::chrono::duration_cast<std::chrono::hours>(d);
-			d -= hours;
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) <<    days.count() << "d"
-			        << std::setw(2) <<   hours.count() << "h"
-			        << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
 		}
 
+		std::string fractionText;
+		unsigned long long seconds = wholeSeconds;
+
 		if (decimalPlaces != 0 && fraction != 0) {
-			builder << fixed(fraction, decimalPlaces).substr(1);
+			fractionText = fixed(fraction, decimalPlaces);
+
+			// The fraction may have been rounded up to a whole second.
+			seconds += fractionText[0] == '1' ? 1 : 0;
+			fractionText = fractionText.substr(1);
+		}
+
+		builder.fill('0');
+
+		if (seconds >= 60 * 60 * 24) {
+			builder << std::setw(2) << seconds / (60 * 60 * 24) << "d";
 		}
 
+		if (seconds >= 60 * 60) {
+			builder << std::setw(2) << seconds / (60 * 60) % 24 << "h";
+		}
+
+		builder << std::setw(2) << seconds / 60 % 60 << "m"
+		        << std::setw(2) << seconds % 60
+		        << fractionText;
+
 		builder << "s";
 
 		return builder.str();
@@ -204,13 +196,19 @@ struct PrettyPrint final {
 	///
 	static std::string printHexBytes(const char * ptr, size_t byteCount, size_t lineLength = 0, size_t groupSize = 0) {
 		std::ostringstream builder;
+
+		if (groupSize == 0) {
+			// No groups: each line is one run of bytes.
+			groupSize = lineLength / 2;
+		}
+
 		const size_t groupsPerLine = calculateGroupsPerLine(lineLength, groupSize);
 
 		if (groupsPerLine == 0) {
 			// Return single line.
 
 			for (size_t m = 0; m < byteCount; m++) {
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[m];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[m];
 			}
 
 			return builder.str();
@@ -227,7 +225,7 @@ struct PrettyPrint final {
 						return builder.str();
 					}
 
-					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 				}
 
 				builder << " ";
@@ -238,7 +236,7 @@ struct PrettyPrint final {
 					return builder.str();
 				}
 
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 			}
 
 			builder << "\n";
@@ -258,7 +256,7 @@ struct PrettyPrint final {
 	private: static size_t calculateGroupsPerLine(size_t lineLength, size_t groupSize) {
 		const size_t groupCharCount = groupSize * 2;
 
-		if (groupCharCount > lineLength) {
+		if (groupCharCount == 0 || groupCharCount > lineLength) {
 			return 0;
 		}
 
-- 
2.43.0


From 99a9035e3b8f670913f8d6f449a02bbc02e57661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 12/78] fix: MovableOnScopeExit cannot be instantiated

---
 src/main/cpp/Balau/Type/MovableOnScopeExit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
index a7d8f85..5d86ac9 100644
--- a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
@@ -96,13 +96,17 @@ class MovableOnScopeExit final {
 			function = [] () {};
 		}
 
+		public: void reset(std::function<void ()> function_) override {
+			function = std::move(function_);
+		}
+
 		public: void executeNow() override {
 			function();
 			clear();
 		}
 
 		friend class MovableOnScopeExit;
-		private: FunctionT function;
+		private: std::function<void ()> function;
 	};
 
 	private: std::unique_ptr<ContainerBase> exiter;
-- 
2.43.0


From 1b79986a0ee5847a7e4df8a30c7d611e542c680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 13/78] fix: files that do not exist yet cannot be constructed
 with recent Boost releases

---
 src/main/cpp/Balau/Resource/File.hpp | 30 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index d18b354..b11edbf 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -183,28 +183,28 @@ class File : public Uri {
 	///
 	/// Create a file from the supplied Boost path.
 	///
-	public: explicit File(const boost::filesystem::path & entry_) : entry(entry_) {}
+	public: explicit File(const boost::filesystem::path & entry_) : entry(makeEntry(entry_)) {}
 
 	///
 	/// Create a file path with the supplied path string.
 	///
 	/// The path must be formatted correctly for the platform.
 	///
-	public: explicit File(const std::string & path) : entry(boost::filesystem::directory_entry(path)) {}
+	public: explicit File(const std::string & path) : entry(makeEntry(path)) {}
 
 	///
 	/// Create a file path with the supplied path string.
 	///
 	/// The path must be formatted correctly for the platform.
 	///
-	public: explicit File(const char * path) : entry(boost::filesystem::directory_entry(path)) {}
+	public: explicit File(const char * path) : entry(makeEntry(path)) {}
 
 	///
 	/// Create a file path with the supplied path string.
 	///
 	/// The path must be formatted correctly for the platform.
 	///
-	public: explicit File(std::string_view path) : entry(boost::filesystem::directory_entry(std::string(path))) {}
+	public: explicit File(std::string_view path) : entry(makeEntry(std::string(path))) {}
 
 	///
 	/// Create a file path with the supplied path string and filename string.
@@ -375,7 +375,7 @@ class File : public Uri {
 	/// @return the current object
 	///
 	public: File & operator = (const boost::filesystem::path & path) {
-		entry = boost::filesystem::directory_entry(path);
+		entry = makeEntry(path);
 		return *this;
 	}
 
@@ -440,7 +440,7 @@ class File : public Uri {
 	/// @return the parent directory of the file URI
 	///
 	public: File getParentDirectory() const {
-		return File(boost::filesystem::directory_entry(entry.path().parent_path()));
+		return File(makeEntry(entry.path().parent_path()));
 	}
 
 	///
@@ -450,7 +450,7 @@ class File : public Uri {
 	///
 	public: File getSubDirectory(std::string subDirectory) const {
 		return File(
-			boost::filesystem::directory_entry(boost::filesystem::path(entry.path()) /= subDirectory)
+			makeEntry(boost::filesystem::path(entry.path()) /= subDirectory)
 		);
 	}
 
@@ -460,7 +460,7 @@ class File : public Uri {
 	public: File getChildEntry(std::string child) const {
 		boost::filesystem::path p = entry.path();
 		p /= child;
-		return File(boost::filesystem::directory_entry(p));
+		return File(makeEntry(p));
 	}
 
 	///
@@ -587,7 +587,7 @@ class File : public Uri {
 			p /= toString(component);
 		}
 
-		return File(boost::filesystem::directory_entry(p));
+		return File(makeEntry(p));
 	}
 
 	///
@@ -628,7 +628,7 @@ class File : public Uri {
 	public: File operator + (const std::string & fragment) const {
 		boost::filesystem::path p = entry.path();
 		p += fragment;
-		return File(boost::filesystem::directory_entry(p));
+		return File(makeEntry(p));
 	}
 
 	public: void dispatch(UriDispatcher & dispatcher) const override {
@@ -641,9 +641,15 @@ class File : public Uri {
 
 	friend class UriResolve;
 
+	// Recent Boost releases query the file system in the directory entry path constructor
+	// and throw when the path does not exist. An unknown status prevents this.
+	private: static boost::filesystem::directory_entry makeEntry(const boost::filesystem::path & path) {
+		return boost::filesystem::directory_entry(path, boost::filesystem::file_status());
+	}
+
 	private: static boost::filesystem::directory_entry create(const std::string & path,
 	                                                          const std::string & name) {
-		boost::filesystem::directory_entry ret(path);
+		boost::filesystem::directory_entry ret = makeEntry(path);
 		return append(ret, name);
 	}
 
@@ -651,7 +657,7 @@ class File : public Uri {
 	                                                          const std::string & name) {
 		boost::filesystem::path p = de.path();
 		p /= name;
-		return boost::filesystem::directory_entry(p);
+		return makeEntry(p);
 	}
 };
 
-- 
2.43.0


From b9eb43439a5c5d18af78fdd84f353fa4bd33282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 14/78] fix: gunzip to a stream leaves the stream with a
 dangling reference to its source

---
 src/main/cpp/Balau/Util/Compression.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index afabcb2..1e10b91 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -36,7 +36,11 @@
 #include <iosfwd>
 #include <sstream>
 
+#include <boost/iostreams/copy.hpp>
+#include <boost/iostreams/device/file.hpp>
+#include <boost/iostreams/filter/gzip.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
+#include <boost/iostreams/filtering_streambuf.hpp>
 
 namespace Balau {
 
@@ -131,11 +135,10 @@ struct GZip final {
 	/// @return an input stream wrapper supplying a uncompressed stream
 	///
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
-		boost::filesystem::ifstream inputStream(input.getEntry(), std::ios::binary);
 		stream = std::make_unique<boost::iostreams::filtering_istream>();
 		auto * filterStream = static_cast<boost::iostreams::filtering_istream *>(stream.get());
 		filterStream->push(boost::iostreams::gzip_decompressor());
-		filterStream->push(inputStream);
+		filterStream->push(boost::iostreams::file_source(input.toRawString(), std::ios::binary));
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c846a95816e974f923de222ba871b9d264bc3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 15/78] fix: moved and iterated zip files lose their password

---
 src/main/cpp/Balau/Resource/ZipFile.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/ZipFile.hpp b/src/main/cpp/Balau/Resource/ZipFile.hpp
index f826863..64a5c23 100644
--- a/src/main/cpp/Balau/Resource/ZipFile.hpp
+++ b/src/main/cpp/Balau/Resource/ZipFile.hpp
@@ -209,7 +209,8 @@ class ZipFile : public File {
 	/// Create a new zip file by moving the contents of the supplied instance.
 	///
 	public: ZipFile(ZipFile && zipFile) noexcept
-		: File(std::move(zipFile)) {}
+		: File(std::move(zipFile))
+		, password(std::move(zipFile.password)) {}
 
 	///
 	/// Assign the zip file by copying the supplied instance.
@@ -266,11 +267,11 @@ class ZipFile : public File {
 	}
 
 	public: std::unique_ptr<RecursiveUriIterator> recursiveIterator() const override {
-		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, ""));
+		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, password));
 	}
 
 	public: std::unique_ptr<UriIterator> iterator() const override {
-		return std::unique_ptr<UriIterator>(new ZipFileUriIterator(*this, false, ""));
+		return std::unique_ptr<UriIterator>(new ZipFileUriIterator(*this, false, password));
 	}
 
 	///
-- 
2.43.0


From 5446e07472afabe4955dfa1806fce8f48e304467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 16/78] fix: zip archive pointer not initialised, directories
 not renamed or deleted, in memory data not copied

---
 src/main/cpp/Balau/Util/Zip.hpp | 43 +++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 4d0e60e..da75cfe 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -42,6 +42,8 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cstdlib>
+#include <cstring>
 #include <iosfwd>
 #include <sstream>
 
@@ -320,6 +322,11 @@ class Unzipper {
 
 		for (long long m = 0; m < count; m++) {
 			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, 0, &sb) != 0) {
+				if (zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive))) == ZIP_ER_DELETED) {
+					// Deleted during the current transaction.
+					continue;
+				}
+
 				throwZipException("Could not read information for entry number " + ::toString(m));
 			}
 
@@ -409,6 +416,8 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void getEntryInfo(long long index, ZipEntryInfo & info) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
+
 		zip_stat_t sb {};
 
 		if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), index, 0, &sb) < 0) {
@@ -454,6 +463,8 @@ class Unzipper {
 	/// @throw ZipException if the entry comment could not be obtained
 	///
 	public: std::string readEntryComment(long long index) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
+
 		const char * comment = zip_file_get_comment(
 			Impl::ZipUtilities<>::cast(archive)
 			, index
@@ -706,7 +717,7 @@ class Unzipper {
 
 		switch (entryType) {
 			case EntryType::Directory: {
-				if (!isDirectoryName(name)) {
+				if (!isDirectoryName(cleanedName)) {
 					ThrowBalauException(
 						Exception::ZipException
 					, "The supplied entry directory name does not end with a forward slash: " + name
@@ -718,7 +729,7 @@ class Unzipper {
 			}
 
 			case EntryType::File: {
-				if (isDirectoryName(name)) {
+				if (isDirectoryName(cleanedName)) {
 					ThrowBalauException(
 						Exception::ZipException
 					, "The supplied entry file name ends with a forward slash: " + name
@@ -752,7 +763,7 @@ class Unzipper {
 		ThrowBalauException(Exception::ZipException, errorMessage + ": " + std::string(errorString) + ".", path);
 	}
 
-	protected: void * archive;
+	protected: void * archive = nullptr;
 	protected: Resource::File path;
 };
 
@@ -896,7 +907,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::vector<char> & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.data(), bytes.size(), 0); });
+		putEntry(name, [&bytes, this] () { return copyToSource(bytes.data(), bytes.size()); });
 	}
 
 	///
@@ -911,7 +922,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::string & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.c_str(), bytes.length(), 0); });
+		putEntry(name, [&bytes, this] () { return copyToSource(bytes.data(), bytes.length()); });
 	}
 
 	///
@@ -1014,6 +1025,24 @@ class Zipper : public Unzipper {
 	////////////////////////// Private implementation /////////////////////////
 
 	// Common implementation for putEntry methods.
+	// The data is copied because it is read when the transaction is committed.
+	private: zip_source * copyToSource(const char * data, size_t length) {
+		void * copy = malloc(length + 1);
+
+		if (copy == nullptr) {
+			return nullptr;
+		}
+
+		memcpy(copy, data, length);
+		zip_source * const source = zip_source_buffer(Impl::ZipUtilities<>::cast(archive), copy, length, 1);
+
+		if (source == nullptr) {
+			free(copy);
+		}
+
+		return source;
+	}
+
 	private: template <typename SourceFunctionT> void putEntry(const std::string & name, SourceFunctionT getSource) {
 		Impl::ZipUtilities<>::checkOpen(*this);
 		const std::string cleanName = cleanUpName(name, EntryType::File);
@@ -1045,7 +1074,7 @@ class Zipper : public Unzipper {
 		for (auto & entryName : names) {
 			if (Strings::startsWith(entryName, cleanName)) {
 				std::string newEntryName = newCleanName + entryName.substr(cleanName.length());
-				renameFile(cleanName, newEntryName);
+				renameFile(entryName, newEntryName);
 			}
 		}
 	}
@@ -1065,7 +1094,7 @@ class Zipper : public Unzipper {
 
 		for (auto & entryName : names) {
 			if (Strings::startsWith(entryName, cleanName)) {
-				deleteFile(cleanName);
+				deleteFile(entryName);
 			}
 		}
 	}
-- 
2.43.0


From e64083ccb0b4e010d6009594d4edf4dc5f080470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 17/78] fix: reading zip entries as strings overflows the
 buffer, does not verify the checksum and never ends when data is missing

---
 src/main/cpp/Balau/Util/Zip.hpp | 35 ++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index da75cfe..e30ef96 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -322,8 +322,10 @@ class Unzipper {
 
 		for (long long m = 0; m < count; m++) {
 			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, 0, &sb) != 0) {
-				if (zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive))) == ZIP_ER_DELETED) {
-					// Deleted during the current transaction.
+				const int error = zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive)));
+
+				if (error == ZIP_ER_DELETED || error == ZIP_ER_INVAL) {
+					// Deleted (or added and deleted) during the current transaction.
 					continue;
 				}
 
@@ -605,7 +607,7 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, data, bytesRemaining);
 
-			if (bytesRead < 0) {
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -618,9 +620,24 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
+
 		return bytes;
 	}
 
+	// LibZip verifies the checksum of the data when the end of the entry is read.
+	private: void checkEndOfEntry(zip_file_t * zipFile, const ZipEntryInfo & info) const {
+		char c;
+
+		if (zip_fread(zipFile, &c, 1) != 0) {
+			ThrowBalauException(
+				  Exception::ZipException
+				, "The data of the entry with index " + ::toString(info.index) + " is damaged."
+				, path
+			);
+		}
+	}
+
 	private: std::string readEntryAsStringImpl(const ZipEntryInfo & info, const std::string & cleanName) const {
 		zip_file_t * zipFile = nullptr;
 
@@ -648,9 +665,11 @@ class Unzipper {
 		std::array<char, 1024 * 2> buffer {};
 
 		while (bytesRemaining > 0) {
-			long long bytesRead = zip_fread(zipFile, buffer.data(), bytesRemaining);
+			long long bytesRead = zip_fread(
+				zipFile, buffer.data(), std::min(bytesRemaining, (long long) buffer.size())
+			);
 
-			if (bytesRead < 0) {
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -664,6 +683,8 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
+
 		return str;
 	}
 
@@ -759,6 +780,10 @@ class Unzipper {
 	}
 
 	protected: void throwZipException(const std::string & errorMessage) const {
+		if (!isOpen()) {
+			ThrowBalauException(Exception::ZipException, errorMessage, path);
+		}
+
 		const char * errorString = zip_error_strerror(zip_get_error(Impl::ZipUtilities<>::cast(archive)));
 		ThrowBalauException(Exception::ZipException, errorMessage + ": " + std::string(errorString) + ".", path);
 	}
-- 
2.43.0


From c7180e19ebc4e3d5e0e3a0c7e39530a38ca0126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 18/78] fix: file queries throw for absent files or use a stale
 status with recent Boost releases

---
 src/main/cpp/Balau/Resource/File.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index b11edbf..4f46991 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -385,7 +385,7 @@ class File : public Uri {
 	/// @return true if an item exits in the file system for the file URI
 	///
 	public: bool exists() const {
-		return boost::filesystem::exists(entry);
+		return boost::filesystem::exists(entry.path());
 	}
 
 	///
@@ -395,7 +395,7 @@ class File : public Uri {
 	///
 	public: size_t size() const {
 		boost::system::error_code errorCode;
-		boost::uintmax_t sz = boost::filesystem::file_size(entry, errorCode);
+		boost::uintmax_t sz = boost::filesystem::file_size(entry.path(), errorCode);
 
 		if (errorCode) {
 			ThrowBalauException(
@@ -413,7 +413,7 @@ class File : public Uri {
 	/// @return the modified time of the file
 	///
 	public: std::chrono::system_clock::time_point getModifiedTimestamp() const {
-		return std::chrono::system_clock::from_time_t(boost::filesystem::last_write_time(entry));
+		return std::chrono::system_clock::from_time_t(boost::filesystem::last_write_time(entry.path()));
 	}
 
 	///
@@ -422,7 +422,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a directory
 	///
 	public: bool isRegularDirectory() const override {
-		return boost::filesystem::is_directory(entry);
+		return boost::filesystem::is_directory(entry.path());
 	}
 
 	///
@@ -431,7 +431,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a regular file
 	///
 	public: bool isRegularFile() const override {
-		return boost::filesystem::is_regular_file(entry);
+		return boost::filesystem::is_regular_file(entry.path());
 	}
 
 	///
@@ -473,7 +473,7 @@ class File : public Uri {
 	/// @throw filesystem_error when there was an error attempting to create one or more of the directories
 	///
 	public: bool createDirectories() const {
-		return boost::filesystem::create_directories(entry);
+		return boost::filesystem::create_directories(entry.path());
 	}
 
 	///
@@ -482,7 +482,7 @@ class File : public Uri {
 	/// @return true if the file was removed
 	///
 	public: bool removeFile() const {
-		return boost::filesystem::remove(entry);
+		return boost::filesystem::remove(entry.path());
 	}
 
 	///
-- 
2.43.0


From dcfc3ebcac09ee0b31d36188e139cbd7c6f8229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 19/78] fix: destroying a moved-from file resource dereferences
 a null stream

---
 src/main/cpp/Balau/Resource/File.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index 4f46991..ccd0bee 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -747,7 +747,9 @@ class FileByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -798,7 +800,9 @@ class FileByteWriteResource : public ByteWriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -855,7 +859,9 @@ class FileUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -912,7 +918,9 @@ class FileUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From afa3e3d9f9978c432068850610d75af1af70401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 20/78] fix: URIs without a scheme, with an invalid port, a
 single character host, an empty query or fragment or malformed UTF-8 are
 parsed incorrectly or with undocumented exceptions

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 68 +++++++++++--------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index cf4a049..9f5e434 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -167,7 +167,7 @@ struct UriComponents {
 		// of letters, digits, plus (+), period (.), or hyphen (-).
 		//
 
-		c = Character::getNextUtf8(uri, offset);
+		c = Character::getNextUtf8Safe(uri, offset);
 
 		if (!Character::isAlpha(c)) {
 			ThrowBalauException(
@@ -177,7 +177,7 @@ struct UriComponents {
 		}
 
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U':') { // End of scheme.
 				break;
@@ -189,6 +189,10 @@ struct UriComponents {
 			}
 		}
 
+		if (c != U':') {
+			ThrowBalauException(Exception::InvalidUriException, "The URI does not have a scheme.");
+		}
+
 		schemeEndOffset = short(offset - 1);
 		int userinfoEnd = -1;
 
@@ -208,13 +212,13 @@ struct UriComponents {
 				pathOffset = short(offset);
 			} else {
 				while (offset < length) {
-					c = Character::getNextUtf8(uri, offset);
+					c = Character::getNextUtf8Safe(uri, offset);
 
-					if (hostOffset == -1 && c == U'[') { // [] enclosed IPv6 address.
+					if (c == U'[' && offset == (userinfoEnd == -1 ? schemeEndOffset + 3 : userinfoEnd + 1) + 1) { // [] enclosed IPv6 address.
 						hostOffset = short(offset - 1);
 
 						while (offset < length && c != U']') {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 						}
 
 						if (c != U']') { // No closing ']'?
@@ -232,7 +236,7 @@ struct UriComponents {
 						--offset;
 						pathOffset = short(offset);
 						break;
-					} else if (userinfoEnd == -1 && c == U'@') { // End of userinfo.
+					} else if (userinfoEnd == -1 && hostOffset == -1 && c == U'@') { // End of userinfo.
 						userinfoEnd = offset - 1;
 						userinfoOffset = short(schemeEndOffset + 3);
 					} else if (c == U':' && (userinfoEnd != -1 || offset > schemeEndOffset + 2)) { // Start of port.
@@ -244,7 +248,7 @@ struct UriComponents {
 						portOffset = short(offset);
 
 						while (offset < length) {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 
 							if (c == U'@') { // Deprecated password.
 								ThrowBalauException(
@@ -263,7 +267,7 @@ struct UriComponents {
 				}
 
 				if (hostOffset == -1) {
-					if (userinfoOffset != -1 && offset > userinfoEnd + 1) {
+					if (userinfoOffset != -1) {
 						hostOffset = short(userinfoEnd + 1);
 					} else if (offset > schemeEndOffset + 2) {
 						hostOffset = short(schemeEndOffset + 3);
@@ -272,35 +276,29 @@ struct UriComponents {
 			}
 		}
 
+		if (pathOffset == -1) {
+			// Either:
+			//  - no port, no query, no fragment; or
+			//  - no host, no port, no query, no fragment
+			pathOffset = short(offset);
+		}
+
 		// If there is an authority section, there must be a non empty host component.
 		if (userinfoOffset != -1  || portOffset != -1) {
 			if (hostOffset == -1) {
 				ThrowBalauException(
 					Exception::InvalidUriException, "Authority section does not contain host information."
 				);
-			} else if (portOffset != -1) {
-				if (portOffset == hostOffset + 1) {
-					ThrowBalauException(
-						Exception::InvalidUriException, "Authority section does not contain host information."
-					);
-				}
-			} else if (offset == hostOffset + 1) {
+			} else if (hostOffset == (portOffset != -1 ? portOffset - 1 : pathOffset)) {
 				ThrowBalauException(
 					Exception::InvalidUriException, "Authority section does not contain host information."
 				);
 			}
 		}
 
-		if (pathOffset == -1) {
-			// Either:
-			//  - no port, no query, no fragment; or
-			//  - no host, no port, no query, no fragment
-			pathOffset = short(offset);
-		}
-
 		// Mandatory path section.
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U'?' || c == U'#') { // End of path.
 				break;
@@ -308,11 +306,11 @@ struct UriComponents {
 		}
 
 		// Optional query section.
-		if (offset < length && c == U'?') {
+		if (c == U'?') {
 			queryOffset = short(offset);
 
 			while (offset < length) {
-				c = Character::getNextUtf8(uri, offset);
+				c = Character::getNextUtf8Safe(uri, offset);
 
 				if (c == U'#') { // End of query.
 					break;
@@ -321,16 +319,28 @@ struct UriComponents {
 		}
 
 		// Optional fragment section.
-		if (offset < length) {
+		if (c == U'#') {
 			fragmentOffset = short(offset);
 		}
 
 		// Pre-convert the port into an unsigned short if it is set.
 		if (portOffset != -1) {
-			const unsigned long p = std::stoul(uri.substr((size_t) portOffset));
+			unsigned long p = 0;
+
+			for (int index = portOffset; index < pathOffset; ++index) {
+				if (uri[index] < '0' || uri[index] > '9') {
+					ThrowBalauException(Exception::InvalidUriException, "The port is not a number.");
+				}
+
+				p = p * 10 + (unsigned long) (uri[index] - '0');
+
+				if (p > UINT16_MAX) {
+					ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+				}
+			}
 
-			if (p > UINT16_MAX) {
-				ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+			if (portOffset == pathOffset) {
+				ThrowBalauException(Exception::InvalidUriException, "The port is empty.");
 			}
 
 			parsedPort = (unsigned short) p;
-- 
2.43.0


From 46dd8efd36564ed8bb8dbba934fb72f548e65160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 21/78] fix: normalizePath keeps the order of components, drops
 empty and current components

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 37 ++++---------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 9f5e434..1c16179 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -68,38 +68,17 @@ struct UriComponents {
 		const auto pathComponents = Util::Strings::split(path, "/");
 		const bool absolute = Util::Strings::startsWith(path, "/");
 		std::vector<std::string_view> newPathComponents;
-		std::vector<size_t> pendingComponents;
-		size_t index = 0;
-		bool lastWasDotDot = false;
 
 		for (const auto & pathComponent : pathComponents) {
-			if (pathComponent == "..") {
-				if (!pendingComponents.empty()) {
-					pendingComponents.pop_back();
-					lastWasDotDot = true;
-				} else {
-					newPathComponents.push_back(pathComponent);
-				}
-			} else {
-				if (lastWasDotDot) {
-					// Commit pending components.
-					for (size_t componentIndex : pendingComponents) {
-						newPathComponents.push_back(pathComponents[componentIndex]);
-					}
-
-					pendingComponents.clear();
-					lastWasDotDot = false;
-				}
-
-				pendingComponents.push_back(index);
+			if (pathComponent.empty() || pathComponent == ".") {
+				continue;
+			} else if (pathComponent != "..") {
+				newPathComponents.push_back(pathComponent);
+			} else if (!newPathComponents.empty() && newPathComponents.back() != "..") {
+				newPathComponents.pop_back();
+			} else if (!absolute) {
+				newPathComponents.push_back(pathComponent);
 			}
-
-			++index;
-		}
-
-		// Commit remaining pending components.
-		for (size_t componentIndex : pendingComponents) {
-			newPathComponents.push_back(pathComponents[componentIndex]);
 		}
 
 		return (absolute ? "/" : "") + Util::Strings::joinContainer("/", newPathComponents);
-- 
2.43.0


From f825b6113e777cf93bef0533921c7614b7eef4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 22/78] fix: file URIs written with their scheme and authority
 prefix parse back to the same file

---
 src/main/cpp/Balau/Resource/UriFromString.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/UriFromString.hpp b/src/main/cpp/Balau/Resource/UriFromString.hpp
index 3048d2d..5bf0051 100644
--- a/src/main/cpp/Balau/Resource/UriFromString.hpp
+++ b/src/main/cpp/Balau/Resource/UriFromString.hpp
@@ -63,6 +63,11 @@ inline void fromString(std::unique_ptr<Uri> & uri, std::string_view value) {
 
 	if (scheme == "file") {
 		auto s = value.substr(value.find(':') + 1);
+
+		if (Util::Strings::startsWith(s, "//")) {
+			s.remove_prefix(2);
+		}
+
 		path = std::string(s.data(), s.length());
 	} else { // Implicit file schema or zip archive.
 		path = std::string(value);
-- 
2.43.0


From b4d9da3e2a39a58d3513bcff216fd734f0dded78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 23/78] fix: appending a path component to a URL keeps the user
 and port

---
 src/main/cpp/Balau/Resource/Url.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/Url.hpp b/src/main/cpp/Balau/Resource/Url.hpp
index d9b0da6..b8f97ea 100644
--- a/src/main/cpp/Balau/Resource/Url.hpp
+++ b/src/main/cpp/Balau/Resource/Url.hpp
@@ -73,8 +73,13 @@ class Url : public Uri {
 		const UriComponents components(uri);
 		// TODO normalise path.
 
+		const std::string_view path = components.path();
+
 		std::string url = ::toString(
-			components.scheme(), "://", components.host(), components.path(), "/", pathComponent
+			  std::string_view(uri.c_str(), uri.length() - components.pathQueryFragment().length())
+			, path
+			, Util::Strings::endsWith(path, '/') ? "" : "/"
+			, pathComponent
 		);
 
 		if (components.hasQuery()) {
-- 
2.43.0


From 3bd555b110d9dc7065a64f5f4c80b13e1936a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 24/78] fix: resolve paths of http, https and archive URIs
 against the documented base path

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 76 +++++++++++-----------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 1b62191..48d762e 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -96,6 +96,20 @@ class UriResolve {
 	};
 
 	friend struct UriResolveVisitor;
+
+	// Resolve the supplied relative or absolute path with the URL's path.
+	private: static std::string resolvePath(const std::string & url, const std::string & path) {
+		const UriComponents components(url);
+		std::string resolved = url.substr(0, url.length() - components.pathQueryFragment().length());
+
+		if (!Util::Strings::startsWith(path, "/")) {
+			const std::string_view basePath = components.path();
+			const size_t basePathLength = basePath.rfind('/') + 1;
+			resolved += basePathLength == 0 ? std::string_view("/") : basePath.substr(0, basePathLength);
+		}
+
+		return resolved + path;
+	}
 };
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const Uri & uri, std::string_view path) {
@@ -105,7 +119,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Uri & uri, std::string_vie
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const File & file, std::string_view path) {
-	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+-\\.]*:" };
+	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+.-]*:" };
 
 	auto cleanPath = Util::Strings::trim(path);
 	auto str = std::string(cleanPath);
@@ -171,7 +185,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const File & file, std::string_v
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const Http & http, std::string_view path) {
-	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+-\\.]*:" };
+	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+.-]*:" };
 
 	auto cleanPath = Util::Strings::trim(path);
 	auto str = std::string(cleanPath);
@@ -182,22 +196,11 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Http & http, std::string_v
 		return uri;
 	}
 
-	const UriComponents components(http);
-
-	if (Util::Strings::startsWith(str, "/")) {
-		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
-		return std::unique_ptr<Uri>(new Http(url));
-	} else {
-		// Relative path.
-		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
-		return std::unique_ptr<Uri>(new Http(url));
-	}
+	return std::unique_ptr<Uri>(new Http(resolvePath(http.toUriString(), str)));
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string_view path) {
-	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+-\\.]*:" };
+	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+.-]*:" };
 
 	auto cleanPath = Util::Strings::trim(path);
 	auto str = std::string(cleanPath);
@@ -208,22 +211,11 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string
 		return uri;
 	}
 
-	const UriComponents components(https);
-
-	if (Util::Strings::startsWith(str, "/")) {
-		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
-		return std::unique_ptr<Uri>(new Https(url));
-	} else {
-		// Relative path.
-		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
-		return std::unique_ptr<Uri>(new Https(url));
-	}
+	return std::unique_ptr<Uri>(new Https(resolvePath(https.toUriString(), str)));
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const StringUri & stringUri, std::string_view path) {
-	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+-\\.]*:" };
+	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+.-]*:" };
 
 	auto cleanPath = Util::Strings::trim(path);
 	auto str = std::string(cleanPath);
@@ -244,7 +236,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const StringUri & stringUri, std
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const ZipEntry & zipEntry, std::string_view path) {
-	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+-\\.]*:" };
+	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+.-]*:" };
 
 	auto cleanPath = Util::Strings::trim(path);
 	auto str = std::string(cleanPath);
@@ -255,20 +247,26 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipEntry & zipEntry, std::
 		return uri;
 	}
 
-	if (Util::Strings::startsWith(str, "/")) {
-		// Absolute path.
-		return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(str)));
-	} else {
-		// Relative path.
+	std::string newName = str;
+
+	if (!Util::Strings::startsWith(str, "/")) {
+		// Relative path.. resolve according to the directory of the entry.
 		const std::string entryName = zipEntry.archive.getEntryName(zipEntry.entryIndex);
-		const std::string normalisedName = UriComponents::normalizePath(entryName);
-		const auto newName = normalisedName + str;
-		return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(newName)));
+		newName = entryName.substr(0, entryName.rfind('/') + 1) + str;
 	}
+
+	newName = UriComponents::normalizePath("/" + newName).substr(1);
+
+	if (!zipEntry.archive.hasEntry(newName)) {
+		// Directory entries have a trailing forward slash.
+		newName += "/";
+	}
+
+	return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(newName)));
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const ZipFile & zipFile, std::string_view path) {
-	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+-\\.]*:" };
+	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+.-]*:" };
 
 	auto cleanPath = Util::Strings::trim(path);
 	auto str = std::string(cleanPath);
@@ -282,7 +280,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipFile & zipFile, std::st
 	boost::filesystem::path p(str);
 
 	if (p.is_relative()) {
-		auto p2 = boost::filesystem::relative(p, zipFile.entry.path());
+		auto p2 = (zipFile.entry.path().parent_path() / p).lexically_normal();
 		return std::unique_ptr<Uri>(new ZipFile(File(p2)));
 	} else { // absolute
 		return std::unique_ptr<Uri>(new ZipFile(File(p)));
-- 
2.43.0


From 8a79425b0fc183589551e941bf0deea7f5c326b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 25/78] fix: URL decoding reads past the end, loops on a final
 percent sign, never detects invalid UTF-8 and splits parameters incorrectly

---
 .../cpp/Balau/Network/Utilities/UrlDecode.hpp | 53 ++++++++-----------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 2241bfc..31b43fa 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -75,15 +75,17 @@ struct UrlDecode {
 		std::vector<std::string_view> parameters = Util::Strings::split(data, "&");
 
 		for (auto parameter : parameters) {
-			std::vector<std::string_view> keyAndValue = Util::Strings::split(parameter, "=");
+			const size_t equals = parameter.find('=');
 
-			if (keyAndValue.size() == 1) {
+			if (parameter.empty()) {
+				continue;
+			} else if (equals == std::string_view::npos) {
 				// No value supplied.
-				keysAndValues.emplace(keyAndValue[0], "");
-			} else if (keyAndValue.size() != 2) {
+				keysAndValues.emplace(parameter, "");
+			} else if (parameter.find('=', equals + 1) != std::string_view::npos) {
 				ThrowBalauException(Exception::NetworkException, "Invalid parameter list");
 			} else {
-				keysAndValues.emplace(keyAndValue[0], keyAndValue[1]);
+				keysAndValues.emplace(parameter.substr(0, equals), parameter.substr(equals + 1));
 			}
 		}
 
@@ -127,36 +129,22 @@ struct UrlDecode {
 				case '%': {
 					std::string thisOutput;
 
-					while (input[index] == '%') {
-						++index;
+					while (index < input.length() && input[index] == '%') {
+						const int high = index + 1 < input.length() ? hexDigit(input[index + 1]) : -1;
+						const int low = index + 2 < input.length() ? hexDigit(input[index + 2]) : -1;
 
-						if (index == input.length()) {
-							// Illegal input.. % character on its own at the end.
+						if (high < 0 || low < 0) {
+							// Illegal input.. % character without two following hexadecimal digits.
 							if (throwOnError) {
 								ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
 							}
 
+							++index;
 							continue;
 						}
 
-						const size_t x = index;
-						++index;
-
-						if (index == input.length()) {
-							// Illegal input.. % character with single following character at the end.
-							if (throwOnError) {
-								ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-							}
-
-							continue;
-						}
-
-						// Try to convert the hex character pair into an unsigned byte.
-						std::string_view v = input.substr(x, 2);
-						unsigned char b;
-						fromString(b, v, 16);
-						thisOutput += (char) b;
-						++index;
+						thisOutput += (char) (high * 16 + low);
+						index += 3;
 					}
 
 					bool valid = true;
@@ -165,9 +153,7 @@ struct UrlDecode {
 						int offset = 0;
 
 						while (offset != (int) thisOutput.length()) {
-							Character::getNextUtf8Safe(thisOutput, offset);
-
-							if (offset < 0) {
+							if ((int32_t) Character::getNextUtf8Safe(thisOutput, offset) < 0) {
 								// Not valid UTF-8.
 								if (throwOnError) {
 									ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
@@ -199,6 +185,13 @@ struct UrlDecode {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: static int hexDigit(char c) {
+		return c >= '0' && c <= '9' ? c - '0'
+			: c >= 'a' && c <= 'f' ? c - 'a' + 10
+			: c >= 'A' && c <= 'F' ? c - 'A' + 10
+			: -1;
+	}
+
 	UrlDecode() = delete;
 	UrlDecode(const UrlDecode &) = delete;
 	UrlDecode & operator = (const UrlDecode &) = delete;
-- 
2.43.0


From 7d23e8b1ad30ed4f69e19e7a8db71cf120819e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 26/78] fix: command lines keep final values of an earlier
 parse, read past the end, cut final values and accept incomplete numbers

---
 .../cpp/Balau/Application/CommandLine.hpp     | 116 ++++++++++--------
 1 file changed, 66 insertions(+), 50 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ce26fba..6c0d23d 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -234,6 +234,7 @@ template <typename KeyT> class CommandLine {
 		using ::toString;
 
 		parsedValuesByKey.clear();
+		finalValues.clear();
 
 		if (args.empty() || (ignoreFirst && args.size() == 1)) {
 			if (commandLineHasFinalValue == HasFinalValue::Yes) {
@@ -310,7 +311,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse);
 	}
 
@@ -321,7 +322,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse);
 	}
 
@@ -332,7 +333,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse);
 	}
 
@@ -343,7 +344,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse);
 	}
 
@@ -354,7 +355,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse);
 	}
 
@@ -365,7 +366,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse);
 	}
 
@@ -378,7 +379,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShortOrDefault(KeyT key, short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse, true, defaultValue);
 	}
 
@@ -389,7 +390,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShortOrDefault(KeyT key, unsigned short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse, true, defaultValue);
 	}
 
@@ -400,7 +401,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsIntOrDefault(KeyT key, int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse, true, defaultValue);
 	}
 
@@ -411,7 +412,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedIntOrDefault(KeyT key, unsigned int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse, true, defaultValue);
 	}
 
@@ -422,7 +423,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLongOrDefault(KeyT key, long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse, true, defaultValue);
 	}
 
@@ -433,7 +434,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLongOrDefault(KeyT key, unsigned long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse, true, defaultValue);
 	}
 
@@ -446,7 +447,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloat(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse);
 	}
 
@@ -457,7 +458,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDouble(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse);
 	}
 
@@ -470,7 +471,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloatOrDefault(KeyT key, float defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse, true, defaultValue);
 	}
 
@@ -481,7 +482,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDoubleOrDefault(KeyT key, double defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse, true, defaultValue);
 	}
 
@@ -514,7 +515,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloat(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index);
 	}
 
@@ -525,7 +526,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDouble(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index);
 	}
 
@@ -549,7 +550,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloatOrDefault(float defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -560,7 +561,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDoubleOrDefault(double defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -675,28 +676,25 @@ template <typename KeyT> class CommandLine {
 	                                     bool ignoreFirst) {
 		using ::toString;
 
-		std::vector<std::string> cleanedArgs;
-		size_t m = ignoreFirst ? 1 : 0;
-
-		while (m < args.size()) {
+		for (size_t m = ignoreFirst ? 1 : 0; m < args.size(); m++) {
 			const std::string & arg = args[m];
-
-			if (Util::Strings::contains(arg, "=")) {
-				const size_t first = arg.find('=');
-				cleanedArgs.emplace_back(arg.substr(0, first));
-				cleanedArgs.emplace_back(arg.substr(first + 1));
-			} else {
-				cleanedArgs.emplace_back(arg);
-			}
-
-			m++;
-		}
-
-		for (size_t m = 0; m < (commandLineHasFinalValue == HasFinalValue::Yes ? cleanedArgs.size() - 1 : cleanedArgs.size()); m++) {
-			const std::string optionSwitch = toString(Util::Strings::trim(cleanedArgs[m]));
+			const bool last = m + 1 == args.size();
+			const size_t equals = arg.find('=');
+			const bool hasEquals = equals != std::string::npos;
+			const std::string optionSwitch = toString(Util::Strings::trim(std::string_view(arg).substr(0, equals)));
 			auto iter = keysBySwitch.find(optionSwitch);
+			const bool found = iter != keysBySwitch.end();
+
+			if (last && commandLineHasFinalValue != HasFinalValue::No) {
+				// An argument that is an option is not the final value, other
+				// than a valueless one when a final value is required.
+				if (!found || (commandLineHasFinalValue == HasFinalValue::Yes && !hasEquals)) {
+					finalValues.push_back(toString(Util::Strings::trim(arg)));
+					break;
+				}
+			}
 
-			if (iter == keysBySwitch.end()) {
+			if (!found) {
 				ThrowBalauException(Exception::OptionNotFoundException, optionSwitch);
 			}
 
@@ -704,21 +702,20 @@ template <typename KeyT> class CommandLine {
 			const auto & option = optionsByKey.at(key);
 
 			if (option.hasValue) {
-				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 2) {
-					ThrowBalauException(Exception::MissingFinalValueException, "");
-				} else if (cleanedArgs.size() - m < 1) {
+				if (!hasEquals) {
 					ThrowBalauException(Exception::MissingOptionValueException, optionSwitch);
 				}
 
-				m++;
-				parsedValuesByKey[key] = toString(Util::Strings::trim(cleanedArgs[m]));
+				parsedValuesByKey[key] = toString(Util::Strings::trim(std::string_view(arg).substr(equals + 1)));
+			} else if (hasEquals) {
+				ThrowBalauException(Exception::OptionNotFoundException, arg);
 			} else {
 				parsedValuesByKey[key] = "";
 			}
 		}
 
-		if (commandLineHasFinalValue == HasFinalValue::Yes) {
-			finalValues.push_back(toString(Util::Strings::trim(cleanedArgs.back())));
+		if (commandLineHasFinalValue == HasFinalValue::Yes && finalValues.empty()) {
+			ThrowBalauException(Exception::MissingFinalValueException, "");
 		}
 	}
 
@@ -770,6 +767,25 @@ template <typename KeyT> class CommandLine {
 				parsedValuesByKey[key] = "";
 			}
 		}
+
+		if (commandLineHasFinalValue == HasFinalValue::Yes && finalValues.empty()) {
+			ThrowBalauException(Exception::MissingFinalValueException, "");
+		}
+	}
+
+	//
+	// Parse the whole of the supplied string. Unlike the standard library
+	// functions, negative numbers are not accepted for unsigned types.
+	//
+	private: template<typename T, typename C> static C parseAll(const std::string & str, C parse(const std::string &, size_t *)) {
+		size_t end = 0;
+		const C value = parse(str, &end);
+
+		if (end != str.length() || (std::is_unsigned<T>::value && str.find('-') != std::string::npos)) {
+			throw std::invalid_argument(str);
+		}
+
+		return value;
 	}
 
 	//
@@ -779,7 +795,7 @@ template <typename KeyT> class CommandLine {
 	//
 	private: template<typename T, typename C> T getOptionAs(KeyT key,
 	                                                        const std::string & typeAsString,
-	                                                        C parse(const std::string &),
+	                                                        C parse(const std::string &, size_t *),
 	                                                        bool orDefault = false,
 	                                                        T defaultValue = T()) const {
 		if (parsedValuesByKey.find(key) == parsedValuesByKey.end()) {
@@ -798,7 +814,7 @@ template <typename KeyT> class CommandLine {
 		const std::string str = parsedValuesByKey.at(key);
 
 		try {
-			const C value = parse(str);
+			const C value = parseAll<T>(str, parse);
 			return boost::numeric_cast<T>(value);
 		} catch (const std::invalid_argument &) {
 			using ::toString;
@@ -833,7 +849,7 @@ template <typename KeyT> class CommandLine {
 	//  - T is the required type.
 	//
 	private: template<typename T> T getFinalValueAs(const std::string & typeAsString,
-	                                                T parse(const std::string &),
+	                                                T parse(const std::string &, size_t *),
 	                                                size_t index,
 	                                                bool orDefault = false,
 	                                                T defaultValue = T()) const {
@@ -857,7 +873,7 @@ template <typename KeyT> class CommandLine {
 		}
 
 		try {
-			return parse(finalValues[index]);
+			return parseAll<T>(finalValues[index], parse);
 		} catch (const std::invalid_argument &) {
 			ThrowBalauException(
 				Exception::OptionValueException, std::string("Final value is not " + typeAsString + ": " + finalValues[index])
-- 
2.43.0


From ea793118e0617edd1b84d17138f07da951eeaaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 27/78] fix: scanner rejects invalid UTF-8 instead of running
 on

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 1ad720e..8ccf1e5 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -97,9 +97,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((int32_t) currentChar < 0) {
 				ThrowBalauException(
 					  Exception::SyntaxErrorException
 					, "Invalid UTF-8 text found during parsing of string literal", calculateCurrentCodeSpan()
@@ -118,9 +118,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((int32_t) currentChar < 0) {
 				container.push_back(errorReport(calculateCurrentCodeSpan()));
 				return false;
 			}
@@ -245,6 +245,10 @@ template <typename TokenT> class AbstractScanner {
 	}
 
 	protected: CodeSpan calculateCurrentCodeSpan() {
+		if (tokens.empty()) {
+			return CodeSpan(1, 1, 1, 1);
+		}
+
 		return RandomAccessScannedTokens<TokenT>::determineCodeSpan(
 			text, tokens, startOffsets, (unsigned int) tokens.size() - 1
 		);
-- 
2.43.0


From 1d684adc84f1308f049f604764974b9d57cbdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 28/78] fix: code spans and putting back of scanned tokens

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp   | 285 ++++++++----------
 1 file changed, 119 insertions(+), 166 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 9ddb8c0..14f6bf0 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -106,6 +106,9 @@ template <typename TokenT> class ScannedTokens final {
 		, text(std::move(text_))
 		, tokens(tokens_)
 		, startOffsets(startOffsets_) {
+		// The text is held in the heap, in order that views onto it remain valid when it is moved.
+		text.reserve(sizeof(std::string) + 1);
+
 		Assert::assertion(tokens.back() == TokenT::EndOfFile, "ScannedTokens must end with an EndOfFile token.");
 	}
 
@@ -244,11 +247,11 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 				, lineLengthCache
 			);
 
-			startPosition = endPosition;
-
 			if (index == thisIndex) {
 				return CodeSpan(startPosition, endPosition);
 			}
+
+			startPosition = endPosition;
 		}
 
 		determineNewEnd(
@@ -330,55 +333,14 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	                                     unsigned int nextOffset,
 	                                     CodePosition & endPosition,
 	                                     std::vector<unsigned int> & lineLengthCache) {
-		static const std::regex endLineBreakRegex = std::regex("(\n\r|\r\n|\n|\r)$");
-
-		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
-			const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
-			const std::vector<size_t> lineLengths = Util::Strings::lineLengths(thisText);
-			const bool hasCurrentLine = !std::regex_search(thisText, endLineBreakRegex);
-
-			using ::toString;
-
-			Assert::assertion(
-				  !lineLengths.empty()
-				, [&] () { return std::string(
-					"A line break token was supplied in the determineNewEnd function"
-					"call but no line end was found in the supplied text. "
-					"Start offset = "
-				) + toString(thisOffset) + ", end offset = " +
-					toString(nextOffset) + ", token text = " + thisText; }
-			);
-
-			// The first line length is added to the current line length, then
-			// the intermediate line lengths are added, then the current line
-			// length becomes the current line length.
-
-			// First.
-			endPosition.column += lineLengths[0];
-			++endPosition.line;
-			lineLengthCache.push_back(endPosition.column - 1); // one indexed column position
-
-			if (hasCurrentLine) {
-				// Intermediate.
-				for (size_t m = 1; m < lineLengths.size() - 1; m++) {
-					lineLengthCache.push_back((unsigned int) lineLengths[m]);
-					++endPosition.line;
-				}
-
-				// Current.
-				endPosition.column = 1 + (unsigned int) lineLengths.back();
-			} else {
-				// Intermediate.
-				for (size_t m = 1; m < lineLengths.size(); m++) {
-					lineLengthCache.push_back((unsigned int) lineLengths[m]);
-					++endPosition.line;
-				}
-
-				// Current.
+		for (unsigned int m = thisOffset; m < nextOffset; m++) {
+			if (isLineBreak(fullText, m, nextOffset)) {
+				lineLengthCache.push_back(endPosition.column - 1); // one indexed column position
+				++endPosition.line;
 				endPosition.column = 1;
+			} else {
+				++endPosition.column;
 			}
-		} else {
-			endPosition.column += nextOffset - thisOffset;
 		}
 	}
 
@@ -390,35 +352,39 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	                                       unsigned int nextOffset,
 	                                       CodePosition & startPosition,
 	                                       std::vector<unsigned int> & lineLengthCache) {
-		static const std::regex lineBreakRegex = std::regex("\n\r|\r\n|\n|\r");
-
-		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
-			const unsigned int lineBreaks = (unsigned int) Util::Strings::occurrences(fullText.substr(thisOffset, nextOffset - thisOffset), lineBreakRegex);
-
-			using ::toString;
-
-			Assert::assertion(
-				  lineBreaks != 0
-				, [&] () {
-				  	return toString(
-						  "A line break token was supplied in the determineNewStart function"
-						, "call but no line end was found in the supplied text. "
-						, "Start offset = ", thisOffset
-						, ", end offset = ", nextOffset
-						, ", token text = ", fullText.substr(thisOffset, nextOffset - thisOffset)
-					);
-				}
-			);
-
-			for (size_t m = 0; m < lineBreaks; m++) {
-				startPosition.column = lineLengthCache.back() + 1; // one indexed column position
-				lineLengthCache.pop_back();
+		unsigned int lengthBeforeFirstLineBreak = 0;
+		unsigned int lineBreaks = 0;
+
+		for (unsigned int m = thisOffset; m < nextOffset; m++) {
+			if (isLineBreak(fullText, m, nextOffset)) {
+				++lineBreaks;
+			} else if (lineBreaks == 0) {
+				++lengthBeforeFirstLineBreak;
 			}
+		}
 
-			startPosition.line -= lineBreaks;
-		} else {
-			startPosition.column -= nextOffset - thisOffset;
+		for (unsigned int m = 0; m < lineBreaks; m++) {
+			startPosition.column = lineLengthCache.back() + 1; // one indexed column position
+			lineLengthCache.pop_back();
 		}
+
+		startPosition.line -= lineBreaks;
+		startPosition.column -= lengthBeforeFirstLineBreak;
+	}
+
+	// Is there a line break at the supplied offset? Advances to the second byte of a two byte line break.
+	private: static bool isLineBreak(const std::string & text, unsigned int & offset, unsigned int endOffset) {
+		if (text[offset] != '\n' && text[offset] != '\r') {
+			return false;
+		}
+
+		const char other = text[offset] == '\n' ? '\r' : '\n';
+
+		if (offset + 1 < endOffset && text[offset + 1] == other) {
+			++offset;
+		}
+
+		return true;
 	}
 
 	friend class ScannerApiScannedTokens<TokenT>;
@@ -478,16 +444,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		, currentIndex(0)
 		, currentCodeSpan(1, 1, 1, 1) {
 		whitespaceModeStack.push(WhitespaceMode::DoNotConsume);
-		if (scannedTokens.tokens.size() > 1) {
-			RandomAccessScannedTokens<TokenT>::determineNewEnd(
-				  scannedTokens.tokens[0]
-				, scannedTokens.text
-				, scannedTokens.startOffsets[0]
-				, scannedTokens.startOffsets[1]
-				, currentCodeSpan.end
-				, lineLengthCache
-			);
-		}
+		determineFirstEnd();
 	}
 
 	///
@@ -502,6 +459,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		currentIndex = 0;
 		currentCodeSpan = CodeSpan(1, 1, 1, 1);
 		lineLengthCache.clear();
+		determineFirstEnd();
 	}
 
 	///
@@ -742,10 +700,8 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			);
 		}
 
-		const auto steps = currentIndex - marker.index;
-
-		for (size_t m = 0; m < steps; m++) {
-			putBack();
+		while (currentIndex > marker.index) {
+			retreatCurrentIndex();
 		}
 	}
 
@@ -756,71 +712,9 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 	/// and/or line break tokens.
 	///
 	public: void putBack() {
-		const std::vector<TokenT> & tokens = scannedTokens.tokens;
-
+		reverseSkip();
 		retreatCurrentIndex();
-
-		switch (whitespaceModeStack.top()) {
-			case WhitespaceMode::ConsumeWhitespaceAndComments: {
-				while (currentIndex > 0 && (tokens[currentIndex - 1] == TokenT::Blank || tokens[currentIndex - 1] == TokenT::LineBreak || tokens[currentIndex - 1] == TokenT::CommentLine)) {
-					retreatCurrentIndex();
-				}
-
-				break;
-			}
-
-			case WhitespaceMode::ConsumeWhitespace: {
-				while (currentIndex > 0 && (tokens[currentIndex - 1] == TokenT::Blank || tokens[currentIndex - 1] == TokenT::LineBreak)) {
-					retreatCurrentIndex();
-				}
-
-				break;
-			}
-
-			case WhitespaceMode::ConsumeBlanksAndComments: {
-				while (currentIndex > 0 && (tokens[currentIndex - 1] == TokenT::Blank || tokens[currentIndex - 1] == TokenT::CommentLine)) {
-					retreatCurrentIndex();
-				}
-
-				break;
-			}
-
-			case WhitespaceMode::ConsumeBlanks: {
-				while (currentIndex > 0 && tokens[currentIndex - 1] == TokenT::Blank) {
-					retreatCurrentIndex();
-				}
-
-				break;
-			}
-
-			case WhitespaceMode::ConsumeLineBreaksAndComments: {
-				while (currentIndex > 0 && (tokens[currentIndex - 1] == TokenT::LineBreak || tokens[currentIndex - 1] == TokenT::CommentLine)) {
-					retreatCurrentIndex();
-				}
-
-				break;
-			}
-
-			case WhitespaceMode::ConsumeLineBreaks: {
-				while (currentIndex > 0 && (tokens[currentIndex - 1] == TokenT::LineBreak)) {
-					retreatCurrentIndex();
-				}
-
-				break;
-			}
-
-			case WhitespaceMode::ConsumeComments: {
-				while (currentIndex > 0 && (tokens[currentIndex - 1] == TokenT::CommentLine)) {
-					retreatCurrentIndex();
-				}
-
-				break;
-			}
-
-			default: { // WhitespaceMode::DoNotConsume
-				break;
-			}
-		}
+		reverseSkip();
 	}
 
 	///
@@ -921,6 +815,50 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: void determineFirstEnd() {
+		if (scannedTokens.tokens.size() > 1) {
+			determineEnd(0);
+		}
+	}
+
+	// Does the current whitespace mode consume the supplied token?
+	private: bool isConsumed(TokenT token) const {
+		const WhitespaceMode mode = whitespaceModeStack.top();
+
+		switch (token) {
+			case TokenT::Blank: {
+				return mode == WhitespaceMode::ConsumeWhitespaceAndComments
+					|| mode == WhitespaceMode::ConsumeWhitespace
+					|| mode == WhitespaceMode::ConsumeBlanksAndComments
+					|| mode == WhitespaceMode::ConsumeBlanks;
+			}
+
+			case TokenT::LineBreak: {
+				return mode == WhitespaceMode::ConsumeWhitespaceAndComments
+					|| mode == WhitespaceMode::ConsumeWhitespace
+					|| mode == WhitespaceMode::ConsumeLineBreaksAndComments
+					|| mode == WhitespaceMode::ConsumeLineBreaks;
+			}
+
+			case TokenT::CommentLine: {
+				return mode == WhitespaceMode::ConsumeWhitespaceAndComments
+					|| mode == WhitespaceMode::ConsumeBlanksAndComments
+					|| mode == WhitespaceMode::ConsumeLineBreaksAndComments
+					|| mode == WhitespaceMode::ConsumeComments;
+			}
+
+			default: {
+				return false;
+			}
+		}
+	}
+
+	private: void reverseSkip() {
+		while (currentIndex > 0 && isConsumed(scannedTokens.tokens[currentIndex - 1])) {
+			retreatCurrentIndex();
+		}
+	}
+
 	private: void advanceCurrentIndex() {
 		if (currentIndex == scannedTokens.tokens.size() - 1) {
 			return;
@@ -931,14 +869,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 
 		if (currentIndex < scannedTokens.tokens.size() - 1) {
 			// Calculate the new end point.
-			RandomAccessScannedTokens<TokenT>::determineNewEnd(
-				  scannedTokens.tokens[currentIndex]
-				, scannedTokens.text
-				, scannedTokens.startOffsets[currentIndex]
-				, scannedTokens.startOffsets[currentIndex + 1]
-				, currentCodeSpan.end
-				, lineLengthCache
-			);
+			determineEnd(currentIndex);
 		}
 	}
 
@@ -947,18 +878,40 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			return;
 		}
 
+		// Each of the two calls removes the line lengths of the token that it steps back over.
+		if (currentIndex < scannedTokens.tokens.size() - 1) {
+			CodePosition endPosition = currentCodeSpan.end;
+			determineStart(currentIndex, endPosition);
+		}
+
+		determineStart(currentIndex - 1, currentCodeSpan.start);
+
+		--currentIndex;
+
 		currentCodeSpan.end = currentCodeSpan.start;
+		determineEnd(currentIndex);
+	}
 
+	private: void determineStart(unsigned int index, CodePosition & position) {
 		RandomAccessScannedTokens<TokenT>::determineNewStart(
-			  scannedTokens.tokens[currentIndex - 1]
+			  scannedTokens.tokens[index]
 			, scannedTokens.text
-			, scannedTokens.startOffsets[currentIndex - 1]
-			, scannedTokens.startOffsets[currentIndex]
-			, currentCodeSpan.start
+			, scannedTokens.startOffsets[index]
+			, scannedTokens.startOffsets[index + 1]
+			, position
 			, lineLengthCache
 		);
+	}
 
-		--currentIndex;
+	private: void determineEnd(unsigned int index) {
+		RandomAccessScannedTokens<TokenT>::determineNewEnd(
+			  scannedTokens.tokens[index]
+			, scannedTokens.text
+			, scannedTokens.startOffsets[index]
+			, scannedTokens.startOffsets[index + 1]
+			, currentCodeSpan.end
+			, lineLengthCache
+		);
 	}
 
 	private: ScannedTokens<TokenT> scannedTokens;
-- 
2.43.0


From a82d85b4acbfbe365f46babb20bbf099ce028681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 29/78] fix: property parser comments, includes and continued
 lines

---
 .../Balau/Lang/Property/Lang/PropertyAst.hpp  | 75 +++++++------------
 .../Lang/Property/Parser/PropertyParser.hpp   | 31 ++++++--
 2 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 670622d..9d80eec 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -96,41 +96,28 @@ class PropertyNode { // Abstract
 	/// @return the normalised text
 	///
 	public: static std::string normalise(std::string_view input) {
-		// The output string will be at most the same length as the input string.
-		std::string output = std::string(input);
-		int inOffset = 0;
-		int outOffset = 0;
-		char32_t c;
+		std::string output;
+		int offset = 0;
 
-		while (inOffset < (int) input.length()) {
-			c = Character::getNextUtf8Safe(input, inOffset);
+		while (offset < (int) input.length()) {
+			char c = input[(size_t) offset++];
 
-			if (c == U'\\') {
-				if (inOffset == (int) input.length()) {
+			if (c == '\\') {
+				if (offset == (int) input.length()) {
 					break; // Last character is a backslash.
 				}
 
-				c = Character::getNextUtf8Safe(input, inOffset);
+				c = input[(size_t) offset++];
 
-				switch (c) {
-					case U'\r':
-					case U'\n': {
-						skipLineContinuation(input, inOffset, output, outOffset);
-						break;
-					}
-
-					default: {
-						Character::setUtf8AndAdvanceOffset(output, outOffset, c);
-						break;
-					}
+				if (c == '\r' || c == '\n') {
+					skipLineContinuation(input, c, offset);
+					continue;
 				}
-
-			} else {
-				Character::setUtf8AndAdvanceOffset(output, outOffset, c);
 			}
+
+			output += c;
 		}
 
-		output.erase((size_t) outOffset);
 		return output;
 	}
 
@@ -147,33 +134,24 @@ class PropertyNode { // Abstract
 	protected: PropertyNode(PropertyNode && rhs) noexcept
 		: codeSpan(rhs.codeSpan) {}
 
-	private: static void skipLineContinuation(const std::string_view & input,
-	                                          int & inOffset,
-	                                          std::string & output,
-	                                          int & outOffset) {
-		if (inOffset == (int) input.length()) {
-			return; // Last character pair is an escaped CR or LF.
-		}
-
-		char32_t c = Character::getNextUtf8Safe(input, inOffset);
+	// Advance the offset past the second character of a two character line break and the leading blanks of the next line.
+	private: static void skipLineContinuation(const std::string_view & input, char lineBreak, int & offset) {
+		const char other = lineBreak == '\n' ? '\r' : '\n';
 
-		if (c == U'\r' || c == U'\n') {
-			if (inOffset == (int) input.length()) {
-				return; // Last character triplet is an escaped CRLF or LFCR.
-			}
-
-			c = Character::getNextUtf8Safe(input, inOffset);
+		if (offset < (int) input.length() && input[(size_t) offset] == other) {
+			++offset;
 		}
 
-		while (Character::isBlank(c)) {
-			if (inOffset == (int) input.length()) {
-				return; // End of string.
+		while (offset < (int) input.length()) {
+			int nextOffset = offset;
+			const char32_t c = Character::getNextUtf8Safe(input, nextOffset);
+
+			if ((int32_t) c < 0 || !Character::isBlank(c)) {
+				break;
 			}
 
-			c = Character::getNextUtf8Safe(input, inOffset);
+			offset = nextOffset;
 		}
-
-		Character::setUtf8AndAdvanceOffset(output, outOffset, c);
 	}
 };
 
@@ -339,7 +317,10 @@ class CompositeProperty final : public PropertyNode {
 			ret = false;
 		} else {
 			ret = name == o->name
-				&& nodes == o->nodes
+				&& std::equal(
+					nodes.begin(), nodes.end(), o->nodes.begin(), o->nodes.end()
+					, [] (const auto & a, const auto & b) { return *a == *b; }
+				)
 				&& PropertyNode::operator == (rhs);
 		}
 
diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index b71fab4..d629284 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -57,7 +57,7 @@ class PropertyParser {
 		CodeSpan startCodeSpan = token.codeSpan;
 		auto nodes = producePropertyNodes(PropertyToken::EndOfFile);
 		scannedTokens.popWhitespaceMode();
-		CodeSpan finishCodeSpan = token.codeSpan;
+		CodeSpan finishCodeSpan = scannedTokens.getCurrentCodeSpan();
 
 		return AST::Properties(
 			CodeSpan::totalCodeSpan(startCodeSpan, finishCodeSpan)
@@ -371,14 +371,19 @@ class PropertyParser {
 		scannedTokens.expect(PropertyToken::Arobase, "Bug? Expected arobase token to begin comment production.");
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
-		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
+		while (!endsLine(token.token)) {
 			text = extend(text, token.text);
 			scannedTokens.consume();
 			token = scannedTokens.get();
 		}
 
+		if (token.token == PropertyToken::EscapedLineBreak) {
+			// There are no line continuations here.. the backslash is part of the text.
+			text = extend(text, token.text.substr(0, 1));
+		}
+
 		CodeSpan endCodeSpan = token.codeSpan;
 		scannedTokens.consume();
 
@@ -388,17 +393,25 @@ class PropertyParser {
 	}
 
 	private: std::unique_ptr<AST::PropertyNode> produceComment() {
-		scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash token to begin comment production.");
+		scannedTokens.expect(
+			  { PropertyToken::Hash, PropertyToken::Exclamation }
+			, "Bug? Expected hash or exclamation token to begin comment production."
+		);
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
-		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
+		while (!endsLine(token.token)) {
 			text = extend(text, token.text);
 			scannedTokens.consume();
 			token = scannedTokens.get();
 		}
 
+		if (token.token == PropertyToken::EscapedLineBreak) {
+			// There are no line continuations here.. the backslash is part of the text.
+			text = extend(text, token.text.substr(0, 1));
+		}
+
 		CodeSpan endCodeSpan = token.codeSpan;
 		scannedTokens.consume();
 
@@ -407,6 +420,12 @@ class PropertyParser {
 		);
 	}
 
+	private: static bool endsLine(PropertyToken token) {
+		return token == PropertyToken::LineBreak
+			|| token == PropertyToken::EscapedLineBreak
+			|| token == PropertyToken::EndOfFile;
+	}
+
 	private: std::unique_ptr<AST::PropertyNode> produceEmptyLine() {
 		ScannedToken token = scannedTokens.get();
 		CodeSpan codeSpan = token.codeSpan;
-- 
2.43.0


From 1f02f3b168e75d6343bfb2f64a4697f3ff092e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 30/78] fix: printing of properties whose value ends with an
 escaped carriage return

---
 .../Balau/Lang/Property/Util/PropertyAstToString.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp b/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp
index 4199d94..cec6ae8 100644
--- a/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp
@@ -76,7 +76,15 @@ class PropertyAstToString : public PropertyVisitor {
 		pl.writeIndent();
 		pl.write(object.getName());
 		pl.write(" = ");
-		pl.write(object.getValue());
+
+		auto value = object.getValue();
+
+		// An escaped carriage return at the end of the value would merge with the line feed written after it.
+		while (value.size() >= 2 && value.back() == '\r' && value[value.size() - 2] == '\\') {
+			value.remove_suffix(2);
+		}
+
+		pl.write(value);
 		pl.write("\n");
 	}
 
-- 
2.43.0


From 1e7bec4370dd04cbc43b571e4a700e5f12651504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 31/78] fix: callbacks registered in an injector configuration
 are appended to lists that are not yet constructed

---
 src/main/cpp/Balau/Application/Injector.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 65f02a7..4b9cf04 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1735,14 +1735,17 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return builder.str();
 	}
 
-	// Main injector state.
-	private: const std::shared_ptr<const Injector> parent;
-	private: const std::shared_ptr<const Impl::BindingMap> bindings;
-
 	// Data structures for callbacks.
+	//
+	// These are declared before the bindings, because the callbacks of the
+	// configuration are appended to them during the initialisation of the bindings.
 	private: mutable std::list<std::function<void (const Injector& )>> postConstructionCalls;
 	private: mutable std::list<std::function<void ()>> preDestructionCalls;
 	private: mutable std::recursive_mutex callSync;
+
+	// Main injector state.
+	private: const std::shared_ptr<const Injector> parent;
+	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 };
 
 } // namespace Balau
-- 
2.43.0


From 6a0a2ab95b1665d1cea846b9a8aca2b38aac4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 32/78] fix: an injector configuration object that is validated
 and then used registers its callbacks and extra configuration twice

---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ff5de47..ee37c1d 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -111,15 +111,15 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	}
 
 	public: std::vector<const InjectorConfiguration *> getExtraConfiguration() const override {
-		return extraConfiguration;
+		return std::move(extraConfiguration);
 	}
 
 	public: std::list<std::function<void (const Injector& )>> getPostConstructionCalls() const override {
-		return postConstructionCalls;
+		return std::move(postConstructionCalls);
 	}
 
 	public: std::list<std::function<void ()>> getPreDestructionCalls() const override {
-		return preDestructionCalls;
+		return std::move(preDestructionCalls);
 	}
 
 	public: std::list<std::unique_ptr<StaticSingletonRegistrationBase>> getStaticSingletonPostConstructionCalls() const override {
-- 
2.43.0


From 7f1d1369e3677c5c451725166bafe4e039b7afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 33/78] fix: registration of a static singleton keeps a view of
 the binding name

---
 src/main/cpp/Balau/Application/Injector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 4b9cf04..2000af5 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -126,7 +126,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @param name an optional binding name
 	///
 	public: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		registerPostConstructionCallImpl([ptrPtr, name] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
+		registerPostConstructionCallImpl([ptrPtr, n = std::string(name)] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(n); });
 		registerPreDestructionCallImpl([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From ee0a8da93215fbddc371356d058879d525e5eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 34/78] fix: validation of child injectors rejects dependencies
 that the parent injector supplies

---
 src/main/cpp/Balau/Application/Impl/Binding.hpp | 5 ++++-
 src/main/cpp/Balau/Application/Injector.hpp     | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index ff059d7..e3107d9 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -74,7 +74,8 @@ class AbstractBinding {
 	                                   const BindingKey & weakInjectorKey,
 	                                   const BindingKey & constWeakInjectorKey,
 	                                   const BindingKey & sharedInjectorKey,
-	                                   const BindingKey & constSharedInjectorKey) const {
+	                                   const BindingKey & constSharedInjectorKey,
+	                                   const std::function<bool (const BindingKey &)> & ancestorHasBinding) const {
 		const std::vector<BindingKey> dependencyKeys = getDependencyKeys();
 
 		for (const auto & dependencyKey : dependencyKeys) {
@@ -88,6 +89,8 @@ class AbstractBinding {
 				continue; // Special case of injector being injected.
 			} else if (bindingGraph.hasDependency(dependencyKey)) {
 				bindingGraph.addRelationship(dependencyKey, thisKey);
+			} else if (ancestorHasBinding(dependencyKey)) {
+				continue; // Supplied by the parent injector, which is already constructed.
 			} else {
 				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
 			}
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 2000af5..8ca923f 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1672,8 +1672,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const Impl::BindingKey constSharedKey(typeid(Impl::BindingKeyType<shared, const Injector>), "");
 
 		// Validate and create the edges of the dependency graph.
+		const auto ancestorHasBinding = [this] (const Impl::BindingKey & key) {
+			return parent && parent->hasBinding(Impl::BindingKeyView(key));
+		};
+
 		for (const auto & binding : (*bindings)) {
-			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey);
+			binding.value->registerDependencies(
+				graph, weakKey, constWeakKey, sharedKey, constSharedKey, ancestorHasBinding
+			);
 		}
 
 		std::vector<std::pair<Impl::BindingKey, Impl::BindingKey>> cycleEdges;
-- 
2.43.0


From 27ab8eb4d1a0f0114452dcc9a3d3e3346124180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 35/78] fix: static singletons cannot be registered in an
 injector configuration and would not be set

---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ee37c1d..3d6b61f 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -99,7 +99,9 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	/// @param name an optional binding name
 	///
 	protected: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		staticSingletonPostConstructionCalls.emplace_back(new StaticSingletonRegistration<T>(ptrPtr, name));
+		registerPostConstructionCall(
+			[ptrPtr, n = std::string(name)] (const auto & injector) { *ptrPtr = injector.template getShared<T>(n); }
+		);
 		preDestructionCalls.push_back([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From 979defdf6339509fe6979843861efec90f0a4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 36/78] fix: validation rejects dependencies that are satisfied
 by const or weak promotion

---
 .../cpp/Balau/Application/Impl/Binding.hpp    | 28 ++++++++--
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 56 ++++++++++++++++---
 2 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index e3107d9..f79a5d9 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -87,11 +87,29 @@ class AbstractBinding {
 				|| dependencyKey == sharedInjectorKey
 				|| dependencyKey == constSharedInjectorKey) {
 				continue; // Special case of injector being injected.
-			} else if (bindingGraph.hasDependency(dependencyKey)) {
-				bindingGraph.addRelationship(dependencyKey, thisKey);
-			} else if (ancestorHasBinding(dependencyKey)) {
-				continue; // Supplied by the parent injector, which is already constructed.
-			} else {
+			}
+
+			// The requested type is looked up in the whole hierarchy, then each of the promoted types.
+			std::vector<BindingKey> candidateKeys = { dependencyKey };
+
+			for (const auto & promotion : dependencyKey.getPromotions()) {
+				candidateKeys.emplace_back(promotion, dependencyKey.getName());
+			}
+
+			bool satisfied = false;
+
+			for (const auto & candidateKey : candidateKeys) {
+				if (bindingGraph.hasDependency(candidateKey)) {
+					bindingGraph.addRelationship(candidateKey, thisKey);
+					satisfied = true;
+					break;
+				} else if (ancestorHasBinding(candidateKey)) {
+					satisfied = true; // Supplied by the parent injector, which is already constructed.
+					break;
+				}
+			}
+
+			if (!satisfied) {
 				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
 			}
 		}
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 75c5ea2..e7f6b4f 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -27,6 +27,7 @@
 #include <string>
 #include <typeindex>
 #include <utility>
+#include <vector>
 
 namespace Balau::Impl {
 
@@ -208,6 +209,18 @@ class BindingKey final {
 	public: BindingKey & operator = (const BindingKey & rhs) = default;
 	public: BindingKey & operator = (BindingKey && rhs) = default;
 
+	// Create a dependency key, with the types to which the dependency is promoted
+	// when there is no binding of the first type, in order of preference.
+	public: BindingKey(std::type_index type_, std::string && name_, std::vector<std::type_index> promotions_)
+		: BindingKey(type_, std::move(name_)) {
+		promotions = std::move(promotions_);
+	}
+
+	// The types to which this dependency key is promoted (not part of the key's identity).
+	public: const std::vector<std::type_index> & getPromotions() const {
+		return promotions;
+	}
+
 	public: std::type_index getType() const {
 		return type;
 	}
@@ -231,6 +244,7 @@ class BindingKey final {
 
 	private: std::type_index type;
 	private: std::string name;
+	private: std::vector<std::type_index> promotions;
 
 	#ifdef BALAU_DEBUG
 	// Displays the demangled binding key type in the debugger.
@@ -317,7 +331,11 @@ template <typename T> struct CreateBindingKey<T &> {
 // Create a const "Reference" binding key.
 template <typename T> struct CreateBindingKey<const T &> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Reference, T>) }
+		);
 	}
 };
 
@@ -338,42 +356,66 @@ template <typename T> struct CreateBindingKey<const std::shared_ptr<T>> {
 // Create a "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a "Shared" weak binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const weak "Shared" binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
-- 
2.43.0


From d9e49167dedb3a4cc232558125a54302575498a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 37/78] fix: const promotion skips non-const bindings of child
 injectors

---
 src/main/cpp/Balau/Application/Injector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 8ca923f..14128f7 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1263,7 +1263,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst || parent->hasBinding(keyView))) {
 			return parent->getReferenceImpl<T>(name);
 		} else {
 			// Try a non-const binding?
@@ -1283,7 +1283,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst || parent->hasBinding(keyView))) {
 			return parent->getReferenceImpl<T>(name, defaultValue);
 		} else {
 			// Try a non-const binding?
@@ -1353,7 +1353,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst || parent->hasBinding(keyView))) {
 			return parent->getSharedImpl<BaseT>(name);
 		} else {
 			// Try a non-const binding?
@@ -1378,7 +1378,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst || parent->hasBinding(keyView))) {
 			return parent->getSharedImpl<BaseT>(name, defaultValue);
 		} else {
 			// Try a non-const binding?
@@ -1403,7 +1403,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst || parent->hasBinding(keyView))) {
 			return parent->getSharedImpl<BaseT>(name, defaultValueSupplier);
 		} else {
 			// Try a non-const binding?
-- 
2.43.0


From a505175bc16c6251596df258d4344cbf075a8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 38/78] fix: injection macros with sixteen dependencies do not
 compile

---
 .../cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp     | 6 +++---
 src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp b/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp
index 45a2f03..d7e7348 100644
--- a/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp
+++ b/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp
@@ -182,9 +182,9 @@ class Injector;
 #define BALAU_InjectHeaderConstruct__17(TYPE, F0, F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12, F13, F14, F15) \
 	BALAU_InjectHeader(TYPE);                                                                       \
 	                                                                                                \
-	public: TYPE(BALAU_HIPF(F0),  BALAU_HIPF(F1),  BALAU_HIPF(F2),  BALAU_HIPF(F3)                  \
-	             BALAU_HIPF(F4),  BALAU_HIPF(F5),  BALAU_HIPF(F6),  BALAU_HIPF(F7)                  \
-	             BALAU_HIPF(F8),  BALAU_HIPF(F9),  BALAU_HIPF(F10), BALAU_HIPF(F11)                 \
+	public: TYPE(BALAU_HIPF(F0),  BALAU_HIPF(F1),  BALAU_HIPF(F2),  BALAU_HIPF(F3),                 \
+	             BALAU_HIPF(F4),  BALAU_HIPF(F5),  BALAU_HIPF(F6),  BALAU_HIPF(F7),                 \
+	             BALAU_HIPF(F8),  BALAU_HIPF(F9),  BALAU_HIPF(F10), BALAU_HIPF(F11),                \
 	             BALAU_HIPF(F12), BALAU_HIPF(F13), BALAU_HIPF(F14), BALAU_HIPF(F15))                \
 		: BALAU_HIMF(F0),  BALAU_HIMF(F1),  BALAU_HIMF(F2),  BALAU_HIMF(F3)                         \
 		, BALAU_HIMF(F4),  BALAU_HIMF(F5),  BALAU_HIMF(F6),  BALAU_HIMF(F7)                         \
diff --git a/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp b/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp
index 36695e0..2d19b50 100644
--- a/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp
+++ b/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp
@@ -546,9 +546,9 @@
 #define BALAU_InjectConstructNamed_33(TYPE, F0, N0, F1, N1, F2, N2, F3, N3, F4, N4, F5, N5, F6, N6, F7, N7, F8, N8, F9, N9, F10, N10, F11, N11, F12, N12, F13, N13, F14, N14, F15, N15) \
 	BALAU_InjectNamed_33(TYPE, F0, N0, F1, N1, F2, N2, F3, N3, F4, N4, F5, N5, F6, N6, F7, N7, F8, N8, F9, N9, F10, N10, F11, N11, F12, N12, F13, N13, F14, N14, F15, N15) \
 	                                                                                                \
-	public: TYPE(BALAU_IPF(F0),  BALAU_IPF(F1),  BALAU_IPF(F2),  BALAU_IPF(F3)                      \
-	             BALAU_IPF(F4),  BALAU_IPF(F5),  BALAU_IPF(F6),  BALAU_IPF(F7)                      \
-	             BALAU_IPF(F8),  BALAU_IPF(F9),  BALAU_IPF(F10), BALAU_IPF(F11)                     \
+	public: TYPE(BALAU_IPF(F0),  BALAU_IPF(F1),  BALAU_IPF(F2),  BALAU_IPF(F3),                     \
+	             BALAU_IPF(F4),  BALAU_IPF(F5),  BALAU_IPF(F6),  BALAU_IPF(F7),                     \
+	             BALAU_IPF(F8),  BALAU_IPF(F9),  BALAU_IPF(F10), BALAU_IPF(F11),                    \
 	             BALAU_IPF(F12), BALAU_IPF(F13), BALAU_IPF(F14), BALAU_IPF(F15))                    \
 		: BALAU_IMF(F0),  BALAU_IMF(F1),  BALAU_IMF(F2),  BALAU_IMF(F3)                             \
 		, BALAU_IMF(F4),  BALAU_IMF(F5),  BALAU_IMF(F6),  BALAU_IMF(F7)                             \
-- 
2.43.0


From 2d39404aa7ceb59091528d34f4183709d8ea93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 39/78] fix: const promotion of unique pointers looks for a
 binding with the deleter of the const type

---
 src/main/cpp/Balau/Application/Impl/BindingKey.hpp | 14 ++++++++++++--
 src/main/cpp/Balau/Application/Injector.hpp        |  8 ++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index e7f6b4f..45f191c 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -88,6 +88,16 @@ inline std::string toString(const BindingMetaType metaType) {
 // Dummy type that is used for non-unique binding key types.
 struct NoDeleter {};
 
+// The deleter type of the unique binding to which a unique pointer to const is promoted.
+template <typename DeleterT> struct PromotedDeleter {
+	using type = DeleterT;
+};
+
+// The default deleter of a unique pointer to const is promoted to the default deleter of the binding.
+template <typename T> struct PromotedDeleter<std::default_delete<const T>> {
+	using type = std::default_delete<T>;
+};
+
 //
 // Instantiations of this template class are used in the binding key in order
 // to encapsulate the const qualifier and the meta-type information inside a
@@ -310,14 +320,14 @@ template <typename T, typename DeleterT> struct CreateBindingKey<const std::uniq
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename PromotedDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<const std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename PromotedDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 14128f7..83b3c5d 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -828,7 +828,9 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// GetInstance template class specialised for std::unique_ptr<const T>.
 	// This immediately promotes to std::unique_ptr<T>.
 	//
-	private: template <typename BaseT, typename DeleterT> struct GetInstance<std::unique_ptr<const BaseT, DeleterT>> {
+	private: template <typename BaseT, typename ConstDeleterT> struct GetInstance<std::unique_ptr<const BaseT, ConstDeleterT>> {
+		using DeleterT = typename Impl::PromotedDeleter<ConstDeleterT>::type;
+
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
@@ -861,7 +863,9 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// GetInstance template class specialised for const std::unique_ptr<const T>.
 	// This immediately promotes to std::unique_ptr<T>.
 	//
-	private: template <typename BaseT, typename DeleterT> struct GetInstance<const std::unique_ptr<const BaseT, DeleterT>> {
+	private: template <typename BaseT, typename ConstDeleterT> struct GetInstance<const std::unique_ptr<const BaseT, ConstDeleterT>> {
+		using DeleterT = typename Impl::PromotedDeleter<ConstDeleterT>::type;
+
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
-- 
2.43.0


From 756fcbee55187eb4e30d506e56911af188cb90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 40/78] fix: environment configuration from two strings takes
 the type specifications from the property text

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 8d8f0bc..48f8c9e 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -244,7 +244,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	public: EnvironmentConfiguration(const std::string & input, const std::string & typeSpecifications_)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)) }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)))) {}
+		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(typeSpecifications_)))) {}
 
 	///
 	/// Create an environment configuration by specifying the source properties file.
-- 
2.43.0


From 339f87ecb409c6bdbd5480d41312b8d061e3de0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 41/78] fix: environment configuration that is used a second
 time dereferences moved pointers

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 48f8c9e..0d6c4f2 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -444,6 +444,9 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 				}
 			}
 
+			// The configure method creates them again if the configuration is executed again.
+			allBindingBuilderFactories.clear();
+
 			builders = Impl::EnvironmentConfigurationBuilder::build(
 				typeSpecificationsUris, bindingBuilderFactoriesVector, propertyStringsHierarchy
 			);
-- 
2.43.0


From daab83a4c4c4170b6b2be72d358ba65dbf492780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 42/78] fix: default values of unique environment properties do
 not compile

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 6 ++----
 src/main/cpp/Balau/Application/EnvironmentProperties.hpp    | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 0d6c4f2..b6e3c3b 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -372,10 +372,8 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	protected: template <typename BaseT>
 	Impl::PropertyBindingBuilderFactoryPtr unique(std::string name, std::unique_ptr<BaseT> && defaultValue) const {
-		Impl::PropertyBindingBuilderFactoryPtr factory = Impl::getBindingBuilderFactory(typeid(BaseT), name, "");
-		auto f = factory->clone(name, defaultValue);
-		allBindingBuilderFactories.emplace_back(f);
-		return f;
+		auto cloner = Impl::UniquePropertyBindingBuilderFactory<BaseT>::getClonerFunction(name);
+		return unique(std::move(name), cloner, std::move(defaultValue));
 	}
 
 	///
diff --git a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
index 44a62b8..7f35ee8 100644
--- a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
@@ -411,7 +411,7 @@ class EnvironmentProperties {
 	///
 	public: template <typename BaseT> std::unique_ptr<BaseT> getUnique(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
 		return getUnique<BaseT>(
-			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), defaultValue
+			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), std::move(defaultValue)
 		);
 	}
 
-- 
2.43.0


From cc11242b3e0585cf7d5c75f2250fff1c6c809a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 43/78] fix: includes of included property files are resolved
 against the first file

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index 6e206a8..a903293 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -48,8 +48,9 @@ class EnvironmentConfigurationBuilderUtils {
 	};
 
 	private: class PropertyTrieCreator : public Lang::Property::PropertyVisitor {
-		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_)
-			: uri(uri_) {}
+		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_) {
+			uris.push(uri_);
+		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::Properties & object) override {
 			for (auto & node : object.getNodes()) {
@@ -75,9 +76,11 @@ class EnvironmentConfigurationBuilderUtils {
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::IncludePropertyNode & object) override {
-			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uri, Util::Strings::trim(object.getText()));
+			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uris.top(), Util::Strings::trim(object.getText()));
 			auto properties = Lang::Property::PropertyParserService::parse(resolvedUri);
+			uris.push(resolvedUri);
 			visit(payload, properties);
+			uris.pop();
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CommentPropertyNode & object) override {
@@ -88,7 +91,7 @@ class EnvironmentConfigurationBuilderUtils {
 			// NOP
 		}
 
-		private: const std::shared_ptr<Resource::Uri> uri;
+		private: std::stack<std::shared_ptr<Resource::Uri>> uris;
 	};
 
 	// Parse the properties sources and create an object trie containing property string objects.
-- 
2.43.0


From fba58ff5bd2ea2852fff1067f796621d40874f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 44/78] fix: default values that contain an equals sign are
 truncated

---
 .../Impl/PropertyTypeSpecificationVisitor.hpp   | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 443aa0f..51805ac 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -95,22 +95,13 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 				break;
 			}
 
-			case 2: {
-				typeSpecification = std::string(splitValue[0]);
-				defaultValue = std::string(splitValue[1]);
-				break;
-			}
-
 			default: {
-				// The multiple default value text contains one or more '='.. combine into a single piece of text.
-				// It is up to the fromString function to determine if the text is value or not.
 				typeSpecification = std::string(splitValue[0]);
 
-				const size_t length = std::accumulate(
-					splitValue.begin(), splitValue.end(), 0U, [] (size_t l, auto & s) { return l + s.length(); }
-				) - splitValue[0].length();
-
-				defaultValue = std::string(splitValue[1].data(), length);
+				// The default value text may contain one or more '='.. it is everything after the first delimiter.
+				// It is up to the fromString function to determine if the text is value or not.
+				const size_t start = splitValue[1].data() - object.getValue().data();
+				defaultValue = std::string(object.getValue().substr(start));
 			}
 		}
 
-- 
2.43.0


From 10f0934dfc2ee9cb7483b0541f7a87319cfa03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 45/78] fix: type specification of a value is used as that of a
 composite property

---
 .../Application/Impl/EnvironmentConfigurationBuilder.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index acab863..6d29607 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -259,7 +259,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
@@ -347,7 +347,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
-- 
2.43.0


From 80a243ed2dfb88631ea120533a955560f0f8e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 46/78] fix: root composite and value type specifications of
 the same name are cascaded into each other

---
 .../Impl/EnvironmentConfigurationBuilder.hpp    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index 6d29607..bebb8af 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -101,6 +101,16 @@ class EnvironmentConfigurationBuilder {
 				  bindingBuilderFactoryVector
 				, factory
 				, [] (const auto & lhs, const auto & rhs) { return lhs->name == rhs->name; }
+				, [] (auto & dst, const auto & src) {
+					if (dst->isComposite()) {
+						ThrowBalauException(
+							  Exception::EnvironmentConfigurationException
+							, "Incompatible type specifications found."
+						);
+					}
+
+					dst = src;
+				}
 			);
 
 		} else {
@@ -126,6 +136,13 @@ class EnvironmentConfigurationBuilder {
 	//
 	private: static void cascade(PropertyBindingBuilderFactoryPtr & dst,
 	                             const PropertyBindingBuilderFactoryPtr & src) {
+		if (!dst->isComposite()) {
+			ThrowBalauException(
+				  Exception::EnvironmentConfigurationException
+				, "Incompatible type specifications found."
+			);
+		}
+
 		auto & dstComposite = *static_cast<CompositePropertyBindingBuilderFactory *>(dst.get());
 		const auto & srcComposite = *static_cast<const CompositePropertyBindingBuilderFactory *>(src.get());
 
-- 
2.43.0


From a6247d6f9cc4b02678e407c8dcc80821a0f6ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:00 +0000
Subject: [PATCH 47/78] fix: environment configurations cannot be created from
 several type specification URIs

The constructor taking shared pointers to URIs deduced a vector of const
references from its first type specification and did not compile when used.
---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index b6e3c3b..2db5727 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -234,7 +234,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	                         const std::shared_ptr<Resource::Uri> & firstTypeSpecifications,
 	                         const UriT & ... moreTypeSpecifications)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ input }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(firstTypeSpecifications, moreTypeSpecifications ...)) {}
+		, typeSpecificationsUris({ firstTypeSpecifications, moreTypeSpecifications ... }) {}
 
 	///
 	/// Create an environment configuration by specifying a string for the source properties text and the property types via a properties file.
-- 
2.43.0


From 9c70e5ea57634cbf2ee5e7af151d10d1e065cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 48/78] fix: the first equals signs of default values of
 environment properties are lost

---
 .../Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 51805ac..35a182f 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -77,7 +77,7 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 	public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::ValueProperty & object) {
 		auto & pl = static_cast<PropertyTypeSpecificationVisitorPayload &>(payload);
 
-		auto splitValue = Util::Strings::split(object.getValue(), PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter);
+		auto splitValue = Util::Strings::split(object.getValue(), PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter, false, false);
 
 		std::string typeSpecification;
 		std::string defaultValue;
-- 
2.43.0


From ad2cf0f3311ad90909228c9020978f46a9197b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 49/78] fix: level specific streams of ancestors override the
 stream of a logging namespace

The stream properties of an ancestor are not to be inherited by a namespace
that has a stream property of its own, as the comment and the manual say. The
continue statement applied to the inner loop, thus a namespace with only a
"stream" property logged warnings and errors to the streams of its ancestors.
---
 .../cpp/Balau/Logging/Impl/LoggingState.cpp   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 1153364..cd0dd41 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -662,16 +662,18 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 			Logger & parentLogger = *parent->value.getLogger();
 			auto & parentProps = parentLogger.properties;
 
+			// Special treatment is required for stream properties.
+			// Do not propagate the parent's stream properties if
+			// there is a single stream property in the child.
+			const bool hasStreamProperty = std::any_of(
+				  loggerProps.begin()
+				, loggerProps.end()
+				, [&streamStr] (const auto & p) { return Strings::endsWith(p.first, streamStr); }
+			);
+
 			for (auto & parentProp : parentProps) {
-				if (Strings::endsWith(parentProp.first, streamStr)) {
-					// Special treatment is required for stream properties.
-					// Do not propagate the parent's stream properties if
-					// there is a single stream property in the child.
-					for (auto & loggerProp : loggerProps) {
-						if (Strings::endsWith(loggerProp.first, streamStr)) {
-							continue;
-						}
-					}
+				if (hasStreamProperty && Strings::endsWith(parentProp.first, streamStr)) {
+					continue;
 				}
 
 				if (loggerProps.find(parentProp.first) == loggerProps.end()) {
-- 
2.43.0


From f653103ed1362081fd05a2ead4148cdee191136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 50/78] fix: log messages with fewer parameters than
 placeholders read past the parameters

The loop that adds the replacements had an inverted condition, and the vector of
replacements was destroyed before it was used.
---
 src/main/cpp/Balau/Logging/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 98eac46..10e6c50 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -282,13 +282,14 @@ void Logger::logMessage(const SourceCodeLocation & location,
 	auto timePoint = System::SystemClock().now();
 	auto messageItems = textToMessageItems(message, parameterCount);
 	LoggerOStringStream messageTextStream;
+	LoggerStringVector replacementParameters;
 	const LoggerStringVector * finalParameters;
 
 	if (parameters.size() < parameterCount) {
 		// The logging message does not have enough parameters.
-		LoggerStringVector replacementParameters = parameters;
+		replacementParameters = parameters;
 
-		while (parameterCount < parameters.size()) {
+		while (replacementParameters.size() < parameterCount) {
 			replacementParameters.emplace_back("????");
 		}
 
-- 
2.43.0


From 8ed458b942b16f5e255bb43c2858db9c1c6a0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 51/78] fix: log messages are cut at the first null character
 of their parameters

---
 src/main/cpp/Balau/Logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 10e6c50..2e013dc 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -313,7 +313,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
 		, logger.ns
 		, level
 		, location.location
-		, messageText.c_str()
+		, messageText
 		, timePoint
 	);
 
-- 
2.43.0


From 01392dd9ed16525e0666039d8c564e6f5bc75533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 52/78] fix: log lines without a source code location are lost
 when the format has a file path

---
 src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
index 15396ac..d21dfdd 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
@@ -203,7 +203,9 @@ class FilenameLoggerItem : public LogItem {
 // The full path of the file in which the log message is found.
 class FilePathLoggerItem : public LogItem {
 	public: void write(LoggerItemParameters & parameters) const override {
-		parameters.builder << parameters.location;
+		if (parameters.location != nullptr) {
+			parameters.builder << parameters.location;
+		}
 	}
 };
 
-- 
2.43.0


From 5b1abc69a7d7b6f3eee5d8141863050147848023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 53/78] fix: invalid specifiers of logging formats are not
 reported

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index cd0dd41..3ca5ec2 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -836,7 +836,7 @@ void LoggingState::setFormats(LoggerTree & theLoggers) {
 		try {
 			loggerItems = new LogItemVector;
 
-			static const std::regex re(R"(%message|%Y|%y|%m|%d|%H|%M|%S|%thread|%LEVEL|%level|%filename|%filepath|%namespace|%ns|%%|%\")");
+			static const std::regex re(R"(%message|%Y|%y|%m|%d|%H|%M|%S|%thread|%LEVEL|%level|%filename|%filepath|%namespace|%ns|%%|%\"|%)");
 			std::smatch sm;
 
 			while (std::regex_search(format, sm, re)) {
-- 
2.43.0


From 141a9b459431fcf0c2fc9accbc526e9797a3a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 54/78] fix: invalid levels of logging configurations are not
 reported

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 3ca5ec2..0ccaf69 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -943,6 +943,9 @@ void LoggingState::setLevels(LoggerTree & theLoggers) {
 		} else if (Strings::toLower(iter->second) == "none") {
 			level.store(LoggingLevel::NONE);
 		} else {
+			std::cerr << "LOGGING CONFIGURATION ERROR: Unknown logging level: '" << iter->second
+			          << "'.\n Using info as fallback." << std::endl;
+
 			level.store(LoggingLevel::INFO);
 		}
 	}
-- 
2.43.0


From b24b8c3356a0ed7cf6ac700310ea7294011799f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 55/78] fix: include directives in logging configurations
 dereference the top of an empty stack

---
 src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
index c8d7097..2f57480 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
@@ -22,6 +22,7 @@
 
 #include <Balau/Lang/Property/Lang/PropertyAst.hpp>
 #include <Balau/Lang/Property/PropertyParserService.hpp>
+#include <Balau/Resource/StringUri.hpp>
 #include <Balau/Resource/UriResolve.hpp>
 #include <Balau/Logging/Impl/LoggerConfigurationVisitor.hpp>
 
@@ -35,6 +36,8 @@ class LoggerPropertyVisitor : private Lang::Property::PropertyVisitor {
 
 	public: LoggerTree visit(const Lang::Property::AST::Properties & properties) {
 		LoggerPropertyAstPayload payload;
+		// The configuration text has no location. Included locations must thus be absolute.
+		uris.push(std::make_shared<Resource::StringUri>(""));
 		visit(payload, properties);
 		return payload.loggerTree;
 	}
-- 
2.43.0


From 2df09dd9e6dec7d16a46ef73b3af7ba0131f1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 56/78] fix: logging file that cannot be created terminates the
 process

The file was created in the updater thread of the stream, from which the
exception escaped. The stream is now created in the configuring thread, the
error is reported, and the messages are written to the standard error stream
as is done for unknown schemes. The updater thread does not wait for a
notification that was sent before it started.
---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 10 +++++++++-
 .../cpp/Balau/Logging/Impl/LoggingStreams.cpp    | 16 ++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 0ccaf69..477a537 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -347,7 +347,15 @@ LoggingStream * LoggingState::getOrCreateStream(const std::string & uri) {
 		LoggingStreamFactory factory = iter->second;
 
 		// If this throws, then there was no allocation made.
-		LoggingStream * const stream = factory(uri);
+		LoggingStream * stream = nullptr;
+
+		try {
+			stream = factory(uri);
+		} catch (const std::exception & e) {
+			std::cerr << "LOGGING CONFIGURATION ERROR: Failed to create stream '" << uri << "': " << e.what()
+			          << ".\n Using stderr as fallback." << std::endl;
+			stream = new StdErrLoggingStream;
+		}
 
 		// If the insert fails, the heap object must be deleted.
 		try {
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
index 10e07f3..f599240 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
@@ -46,19 +46,17 @@ FileLoggingStream::FileLoggingStream(std::shared_ptr<System::Clock> clock_, std:
 
 	// Only run the updater thread if the URI contains date placeholders.
 	if (running) {
-		std::unique_lock<std::mutex> lock(syncMutex);
+		// Create the stream in the calling thread in order that errors are thrown to the caller.
+		createNewStream();
 		updater = std::thread(updateFunction, this);
-		// Wait until the updater thread unlocks this thread.
-		syncCondition.wait(lock);
 	}
 }
 
 FileLoggingStream::~FileLoggingStream() {
 	if (running) {
-		running = false;
-
 		{
 			std::lock_guard<std::mutex> lock(syncMutex);
+			running = false;
 			// Prep the updater thread for unlock.
 			// The updater thread will unlock when this thread releases the lock.
 			syncCondition.notify_all();
@@ -167,13 +165,7 @@ void FileLoggingStream::createNewStream() {
 void FileLoggingStream::updateFunction(FileLoggingStream * const self) {
 	std::unique_lock<std::mutex> lock(self->syncMutex);
 
-	self->createNewStream();
-
-	// Prep the constructor for unlock.
-	// The constructor will unlock when wait is entered in this thread.
-	self->syncCondition.notify_all();
-
-	while (true) {
+	while (self->running) {
 		// The destructor will notify this wait when the system shuts down.
 		self->syncCondition.wait(lock);
 
-- 
2.43.0


From 6336a03405fb7db889550e5bcb9a85d0b590ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:33 +0000
Subject: [PATCH 57/78] fix: abbreviated namespaces of the ancestors of a
 configured logging namespace have only the first letter of their last
 identifier

---
 src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
index 9213025..a82d1ca 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
@@ -103,7 +103,7 @@ class LoggerConfigurationVisitor {
 			for (size_t m = 0; m < nameSpace.size(); m++) {
 				std::string identifier = std::string(nameSpace[m]);
 				nameSpaceStr += prefix + identifier;
-				std::string thisNs = ns + prefix + (m < nameSpace.size() - 1 ? identifier.substr(0, 1) : identifier);
+				std::string thisNs = ns + prefix + identifier;
 				ns += prefix + identifier.substr(0, 1);
 				prefix = ".";
 				loggerTreeNode = &loggerTreeNode->findOrAddChild(
-- 
2.43.0


From 8469e1233f5169b1af7d3946ec548d96939d0e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:37 +0000
Subject: [PATCH 58/78] fix: the quotation of a %" specifier at the end of a
 logging format is removed

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 477a537..4d5dfb6 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -695,17 +695,12 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 }
 
 inline std::string removeOptionalQuotes(const std::string & text) {
-	std::string ret = text;
-
-	if (!ret.empty() && ret[0] == '"') {
-		ret = ret.substr(1);
-	}
-
-	if (!ret.empty() && ret.back() == '"') {
-		ret = ret.substr(0, ret.length() - 1);
+	// The closing quotation of an unquoted format belongs to the %" specifier.
+	if (text.length() >= 2 && text.front() == '"' && text.back() == '"') {
+		return text.substr(1, text.length() - 2);
 	}
 
-	return ret;
+	return text;
 }
 
 void LoggingState::setStreams(LoggerTree & theLoggers) {
-- 
2.43.0


From 5d3d87ca3ae73bdfdb57761e5eb7a2783d9c87df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 59/78] fix: shared memory objects are opened, mapped and
 removed as documented

The managed object removed names that it had never used, and the opening
constructors of both kinds did not open: open-or-create removed the
existing object, read-only opening locked a read-only segment, and the
unmanaged constructors mapped an object that was never assigned. The name
is now removed by the instance that created the object, only.
---
 .../Interprocess/MSharedMemoryObject.hpp      | 73 ++++++++++++-----
 .../Interprocess/USharedMemoryObject.hpp      | 81 +++++++++++++------
 2 files changed, 113 insertions(+), 41 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index ab0490b..d05d58e 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -85,16 +85,23 @@ template <typename T> class MSharedMemoryObject {
 	/// The specified name prefix is used.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(CreateOnlySelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(CreateOnlySelector, const std::string & name_, const P & ... params)
+		: name(name_)
+		, owner(true) {
 		const std::string memoryName = name + "_memory";
 
 		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
 
 		segment = boost::interprocess::managed_shared_memory(
-			CreateOnlySelector(), memoryName.c_str(), metadataOverhead + sizeof(T)
+			CreateOnlySelector(), memoryName.c_str(), metadataOverhead + name.length() + sizeof(T)
 		);
 
-		object = segment.construct<T>((name + "_object").c_str())(params ...);
+		try {
+			object = segment.construct<T>((name + "_object").c_str())(params ...);
+		} catch (...) {
+			boost::interprocess::shared_memory_object::remove(memoryName.c_str());
+			throw;
+		}
 	}
 
 	///
@@ -105,16 +112,26 @@ template <typename T> class MSharedMemoryObject {
 	/// If the object already exists, it is opened and the supplied parameters are ignored.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name_, const P & ... params)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 
-		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
-
 		segment = boost::interprocess::managed_shared_memory(
-			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
+			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + name.length() + sizeof(T)
 		);
 
-		object = segment.construct<T>((name + "_object").c_str())(params ...);
+		auto findOrConstruct = [&] () {
+			const std::string objectName = name + "_object";
+
+			object = segment.find<T>(objectName.c_str()).first;
+
+			if (object == nullptr) {
+				object = segment.construct<T>(objectName.c_str())(params ...);
+				owner = true;
+			}
+		};
+
+		segment.atomic_func(findOrConstruct);
 	}
 
 	///
@@ -124,7 +141,8 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_only, memoryName.c_str());
 		auto item = segment.find<T>((name + "_object").c_str());
@@ -145,10 +163,12 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_read_only, memoryName.c_str());
-		auto item = segment.find<T>((name + "_object").c_str());
+		// The segment's mutex cannot be locked via a read-only mapping.
+		auto item = segment.find_no_lock<T>((name + "_object").c_str());
 
 		if (item.first == nullptr) {
 			ThrowBalauException(
@@ -163,8 +183,7 @@ template <typename T> class MSharedMemoryObject {
 	/// Destroy the shared memory object.
 	///
 	public: ~MSharedMemoryObject() {
-		segment.destroy<T>((name + "_memory").c_str());
-		boost::interprocess::shared_memory_object::remove((name + "_object").c_str());
+		release();
 	}
 
 	///
@@ -173,18 +192,26 @@ template <typename T> class MSharedMemoryObject {
 	public: MSharedMemoryObject(MSharedMemoryObject && rhs) noexcept
 		: name(std::move(rhs.name))
 		, segment(std::move(rhs.segment))
-		, object(rhs.object) {
+		, object(rhs.object)
+		, owner(rhs.owner) {
 		rhs.object = nullptr;
+		rhs.owner = false;
 	}
 
 	///
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: MSharedMemoryObject & operator = (MSharedMemoryObject && rhs) noexcept {
-		name = std::move(rhs.name);
-		segment = std::move(rhs.segment);
-		object = rhs.object;
-		rhs.object = nullptr;
+		if (this != &rhs) {
+			release();
+			name = std::move(rhs.name);
+			segment = std::move(rhs.segment);
+			object = rhs.object;
+			owner = rhs.owner;
+			rhs.object = nullptr;
+			rhs.owner = false;
+		}
+
 		return *this;
 	}
 
@@ -225,9 +252,19 @@ template <typename T> class MSharedMemoryObject {
 	// Reserved memory for metadata/index used in the allocated block.
 	private: static const size_t metadataOverhead = 512;
 
+	// Destroys the object and removes the name if this instance created the shared memory object.
+	private: void release() {
+		if (owner) {
+			segment.destroy<T>((name + "_object").c_str());
+			boost::interprocess::shared_memory_object::remove((name + "_memory").c_str());
+			owner = false;
+		}
+	}
+
 	private: std::string name;
 	private: boost::interprocess::managed_shared_memory segment;
 	private: T * object = nullptr;
+	private: bool owner = false;
 };
 
 } // namespace Balau::Interprocess
diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index 1573e67..d16873c 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -69,7 +69,8 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: template <typename ... P>
 	USharedMemoryObject(boost::interprocess::create_only_t, std::string name_, const P & ... params)
-		: name(std::move(name_)) {
+		: name(std::move(name_))
+		, owner(true) {
 		boost::interprocess::shared_memory_object::remove(name.c_str());
 
 		sharedMemoryObject = boost::interprocess::shared_memory_object(
@@ -78,7 +79,7 @@ template <typename T> class USharedMemoryObject {
 
 		sharedMemoryObject.truncate(sizeof(T));
 		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
-		object = new (mappedRegion.get_address()) T(params ...);
+		construct(params ...);
 	}
 
 	///
@@ -91,18 +92,26 @@ template <typename T> class USharedMemoryObject {
 	public: template <typename ... P>
 	USharedMemoryObject(boost::interprocess::open_or_create_t, std::string name_, const P & ... params)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
-
-		boost::interprocess::shared_memory_object shm_obj(
-			boost::interprocess::open_or_create, name.c_str(), boost::interprocess::read_write
-		);
-
-		boost::interprocess::offset_t size;
+		try {
+			sharedMemoryObject = boost::interprocess::shared_memory_object(
+				CreateOnlySelector(), name.c_str(), boost::interprocess::read_write
+			);
+
+			owner = true;
+		} catch (const boost::interprocess::interprocess_exception & e) {
+			if (e.get_error_code() != boost::interprocess::already_exists_error) {
+				throw;
+			}
+
+			sharedMemoryObject = boost::interprocess::shared_memory_object(
+				OpenOnlySelector(), name.c_str(), boost::interprocess::read_write
+			);
+		}
 
-		if (shm_obj.get_size(size)) {
-			shm_obj.truncate(sizeof(T));
-			boost::interprocess::mapped_region region(shm_obj, boost::interprocess::read_write);
-			object = new (region.get_address()) T(params ...);
+		if (owner) {
+			sharedMemoryObject.truncate(sizeof(T));
+			remap();
+			construct(params ...);
 		} else {
 			remap();
 		}
@@ -113,7 +122,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object sharedMemoryObject(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_write
 		);
 
@@ -125,7 +134,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_read_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_only
 		);
 
@@ -139,28 +148,36 @@ template <typename T> class USharedMemoryObject {
 		: name(std::move(rhs.name))
 		, sharedMemoryObject(std::move(rhs.sharedMemoryObject))
 		, mappedRegion(std::move(rhs.mappedRegion))
-		, object(rhs.object) {
+		, object(rhs.object)
+		, owner(rhs.owner) {
 		rhs.object = nullptr;
+		rhs.owner = false;
 	}
 
 	public: ~USharedMemoryObject() {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
+		release();
 	}
 
 	///
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: USharedMemoryObject & operator = (USharedMemoryObject && rhs) noexcept {
-		name = std::move(rhs.name);
-		sharedMemoryObject = std::move(rhs.sharedMemoryObject);
-		mappedRegion = std::move(rhs.mappedRegion);
-		object = rhs.object;
-		rhs.object = nullptr;
+		if (this != &rhs) {
+			release();
+			name = std::move(rhs.name);
+			sharedMemoryObject = std::move(rhs.sharedMemoryObject);
+			mappedRegion = std::move(rhs.mappedRegion);
+			object = rhs.object;
+			owner = rhs.owner;
+			rhs.object = nullptr;
+			rhs.owner = false;
+		}
+
 		return *this;
 	}
 
 	public: void remap() {
-		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, sharedMemoryObject.get_mode());
 		object = (T *) mappedRegion.get_address();
 	}
 
@@ -198,10 +215,28 @@ template <typename T> class USharedMemoryObject {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: template <typename ... P> void construct(const P & ... params) {
+		try {
+			object = new (mappedRegion.get_address()) T(params ...);
+		} catch (...) {
+			release();
+			throw;
+		}
+	}
+
+	// Removes the name if this instance created the shared memory object.
+	private: void release() {
+		if (owner) {
+			boost::interprocess::shared_memory_object::remove(name.c_str());
+			owner = false;
+		}
+	}
+
 	private: std::string name;
 	private: boost::interprocess::shared_memory_object sharedMemoryObject;
 	private: boost::interprocess::mapped_region mappedRegion;
 	protected: T * object = nullptr;
+	private: bool owner = false;
 };
 
 } // namespace Balau::Interprocess
-- 
2.43.0


From 116001ee4b7743411d623d3d77be7db3ad7ba03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 60/78] fix: SharedMemoryQueue reports try results and keeps
 partly dequeued objects

tryDequeue never set its success argument, tryEnqueue computed its deadline
in local time, a second failing try lost a partly received object, objects
overtook each other on the pending list, and the open-or-create
constructor without a buffer size did not compile and the one with a
buffer size ignored that of the existing queue.
---
 .../Balau/Interprocess/SharedMemoryQueue.hpp  | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4811e66..4d51c7e 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -44,6 +44,7 @@
 #include <boost/iostreams/filtering_stream.hpp>
 #include <boost/iostreams/stream.hpp>
 
+#include <algorithm>
 #include <deque>
 
 // Ignore false positives for constructor field initialisation.
@@ -175,7 +176,6 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			  OpenOrCreateSelector()
 			, capacity
 			, calculateDefaultBufferSize()
-			, true
 			, std::move(name_)
 			, throwOnOversize_
 		) {}
@@ -200,7 +200,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                          bool throwOnOversize_ = false)
 		: name(std::move(name_))
 		, queue(openOrCreateQueue(capacity, bufferSize_))
-		, chunkSize(bufferSize_)
+		, chunkSize((unsigned int) queue.get_max_msg_size())
 		, queueState(OpenOrCreateSelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
@@ -366,7 +366,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		if (marshalBuffer.size() <= chunkSize) {
 			// The message fits in a single buffer.
-			auto timeout = boost::posix_time::microsec_clock::local_time() + boost::posix_time::millisec(waitTime.count());
+			auto timeout = boost::posix_time::microsec_clock::universal_time() + boost::posix_time::millisec(waitTime.count());
 			return queue.timed_send(marshalBuffer.data(), marshalBuffer.size(), priority, timeout);
 		} else {
 			// Oversize objects cannot be try enqueued, thus an exception is thrown.
@@ -491,7 +491,9 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned long receivedSize;
 		unsigned int priority;
 
-		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
+		success = tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime);
+
+		if (!success) {
 			return T();
 		}
 
@@ -504,7 +506,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -515,6 +517,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 						);
 
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
@@ -525,16 +528,17 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
 					                size_t rejected) {
 					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
 						pendingBuffers.emplace_front(
-							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
+							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
@@ -604,6 +608,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				restorePendingBuffersOrder(rejectedPendingBuffers);
 				return unmarshal(marshalBuffer);
 			}
 
@@ -663,11 +668,21 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				restorePendingBuffersOrder(rejectedPendingBuffers);
 				return unmarshal(marshalBuffer);
 			}
 		}
 	}
 
+	// The rejected buffers at the back were in front of the pending buffers that were not visited.
+	private: void restorePendingBuffersOrder(size_t rejectedPendingBuffers) {
+		std::rotate(
+			  pendingBuffers.begin()
+			, pendingBuffers.end() - (std::ptrdiff_t) rejectedPendingBuffers
+			, pendingBuffers.end()
+		);
+	}
+
 	//
 	// Dequeue next buffer form the pending list if the pending list size is greater
 	// than rejectedPendingBuffers, otherwise dequeue from the shared memory queue.
-- 
2.43.0


From bc3760366300c9e45f4c60f03546543533742609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:31 +0000
Subject: [PATCH 61/78] fix: terminateProcess terminates a running process

The call returned an empty report without doing anything unless the
process had ended already.
---
 src/main/cpp/Balau/Concurrent/Fork.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/Fork.hpp b/src/main/cpp/Balau/Concurrent/Fork.hpp
index 1e723aa..4a25764 100644
--- a/src/main/cpp/Balau/Concurrent/Fork.hpp
+++ b/src/main/cpp/Balau/Concurrent/Fork.hpp
@@ -282,20 +282,12 @@ class Fork {
 		if (waitid(P_PID, (unsigned int) pid, &infop, options) == -1) {
 			ThrowBalauException(Exception::WaitException, errno);
 		} else if (infop.si_pid) {
-			switch (infop.si_code) {
-				case CLD_EXITED:
-				case CLD_KILLED:
-				case CLD_DUMPED: {
-					return TerminationReport(pid, infop.si_code, infop.si_status);
-				}
-
-				default: {
-					kill(pid, SIGKILL);
-					break;
-				}
-			}
+			return TerminationReport(pid, infop.si_code, infop.si_status);
 		}
 
+		// The process has not terminated yet.
+		kill(pid, SIGKILL);
+
 		return TerminationReport();
 	}
 };
-- 
2.43.0


From 035caf2d6c18021cd59c9eb46b01b1d2782f2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 62/78] fix: isNotNull held a reference to a temporary

---
 src/main/cpp/Balau/Testing/Matchers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Matchers.hpp b/src/main/cpp/Balau/Testing/Matchers.hpp
index 61bfc4c..4360901 100644
--- a/src/main/cpp/Balau/Testing/Matchers.hpp
+++ b/src/main/cpp/Balau/Testing/Matchers.hpp
@@ -50,7 +50,9 @@ inline ExpectedValue<E, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNot(cons
 /// Is the actual value not equal to the supplied expected value?
 ///
 inline ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNotNull() {
-	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(nullptr);
+	// The expected value is held by reference, thus it must outlive this call.
+	static void * const null = nullptr;
+	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(null);
 }
 
 ///
-- 
2.43.0


From cc1b15becece54011cb65e88c8024b6d60d54153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 63/78] fix: startsWith compared the bytes of vector elements
 instead of the elements

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 12fdc07..395e3d8 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -23,6 +23,7 @@
 #include <Balau/Exception/TestExceptions.hpp>
 #include <Balau/Testing/Impl/StandardRenderers.hpp>
 
+#include <algorithm>
 #include <iomanip>
 
 namespace Balau::Testing {
@@ -247,7 +248,7 @@ template <typename AE> class MatcherFunction<std::vector<AE>, std::vector<AE>, E
 
 	public: bool matches(const std::vector<AE> & actual, const std::vector<AE> & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual.size() >= expected.size() && std::memcmp(actual.data(), expected.data(), expected.size() * sizeof(AE)) == 0;
+		return actual.size() >= expected.size() && std::equal(expected.begin(), expected.end(), actual.begin());
 	}
 
 	public: EvNotUsed value() { return EvNotUsed(); }
-- 
2.43.0


From a7b372d395d379bee32232c9f3adaf7d7bb417b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 64/78] fix: isAlmostEqual wrapped or overflowed with integers

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 395e3d8..ca61198 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -24,7 +24,9 @@
 #include <Balau/Testing/Impl/StandardRenderers.hpp>
 
 #include <algorithm>
+#include <cstdint>
 #include <iomanip>
+#include <type_traits>
 
 namespace Balau::Testing {
 
@@ -228,7 +230,16 @@ template <typename A, typename E, typename V> class MatcherFunction<A, E, V, Mat
 
 	public: bool matches(const A & actual, const E & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		if constexpr (std::is_integral<A>::value && std::is_integral<E>::value && std::is_integral<V>::value) {
+			// The sum and the difference could wrap or overflow, whereas the distance always fits.
+			const uintmax_t distance = actual >= expected
+				? (uintmax_t) actual - (uintmax_t) expected
+				: (uintmax_t) expected - (uintmax_t) actual;
+
+			return !(errorDelta < V()) && distance <= (uintmax_t) errorDelta;
+		} else {
+			return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		}
 	}
 };
 
-- 
2.43.0


From d296c216872be3768a58786fc095e145ac9d0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 65/78] fix: the rendering of a failed assertion read the last
 character of an empty text

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index f93d541..e643f1e 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -175,8 +175,8 @@ std::string render(const A & actual, const E & expected) {
 		expectedExtra = true;
 	}
 
-	const bool actualEndsWithNewline = actualString.back() == '\n';
-	const bool expectedEndsWithNewline = expectedString.back() == '\n';
+	const bool actualEndsWithNewline = !actualString.empty() && actualString.back() == '\n';
+	const bool expectedEndsWithNewline = !expectedString.empty() && expectedString.back() == '\n';
 
 	if (actualEndsWithNewline && actualExtra) {
 		builder << std::right << std::setw((int) maxLineNumberWidth) << toString(lineCount)
-- 
2.43.0


From 438ac6d7af7136ac32d0a51f0f83ecf5602c254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 66/78] fix: the rendering of a failed assertion exhausted the
 stack with long texts

---
 .../cpp/Balau/Testing/Impl/StandardRenderers.hpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index e643f1e..efed833 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -41,14 +41,17 @@ std::string render(const A & actual, const E & expected) {
 	};
 
 	auto stripNewLine = [] (const std::string & input) -> std::string {
-		static const std::regex lineBreakEnding("(.*)(\r\n|\r|\n)");
-		std::smatch match;
+		size_t length = input.length();
 
-		if (std::regex_match(input, match, lineBreakEnding)) {
-			return match[1];
+		if (length > 0 && input[length - 1] == '\n') {
+			--length;
 		}
 
-		return input;
+		if (length > 0 && input[length - 1] == '\r') {
+			--length;
+		}
+
+		return input.substr(0, length);
 	};
 
 	using ::toString;
-- 
2.43.0


From 9135b62b5cd00834d3c858fe58c2d7fd2664583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:01 +0000
Subject: [PATCH 67/78] fix: the end of the process of the first test was never
 reported

---
 .../Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index cb22811..f22ed30 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -59,8 +59,8 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		// Shared atomic int, providing the next test case index to run.
 		std::atomic_uint nextTestIndex { 0 };
 
-		// Non shared ints, providing the current test case index that a child process is running.
-		// These are checked when a child process starts up in order to determine if a child process seg-faulted.
+		// Non shared ints, providing one plus the current test case index that a child process is running,
+		// or zero when it is not running any. These are checked when a child process starts up in order to determine if a child process seg-faulted.
 		std::array<unsigned int, TestRunnerLimits::MaxConcurrency> currentTestIndices { 0 };
 	};
 
@@ -139,7 +139,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
 
 		if (testIndex != 0) {
-			reportSegFaultedTest(pidStr, tests[testIndex]);
+			reportSegFaultedTest(pidStr, tests[testIndex - 1]);
 		}
 
 		if (singleShot) {
@@ -208,7 +208,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 
 	private: unsigned int claimNextTestIndex(unsigned int childProcessIndex) {
 		unsigned int thisTestIndex = sharedState->nextTestIndex++;
-		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex;
+		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex < tests.size() ? thisTestIndex + 1 : 0;
 		return thisTestIndex;
 	}
 };
-- 
2.43.0


From 19090c068f599e64892fbad17248a1dbad5558cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:19 +0000
Subject: [PATCH 68/78] fix: a test that exits in a worker process was never
 reported

---
 .../Testing/Impl/MultiProcessTestRunnerExecutor.hpp |  6 ++++++
 .../Impl/WorkerProcessesTestRunnerExecutor.hpp      | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index f22ed30..386949a 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -160,10 +160,16 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 				}
 
 				runTest(pidStr, tests[testIndex]);
+				resetCurrentTestIndex(childProcessIndex);
 			}
 		}
 	}
 
+	// Did the child process end whilst running a test?
+	protected: bool endedInTest(unsigned int childProcessIndex) {
+		return getCurrentTestIndex(childProcessIndex) != 0;
+	}
+
 	protected: void reportSegFaultedTest(const std::string & pidStr, FlattenedTestCase & testToRun) {
 		std::ostringstream output;
 
diff --git a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
index 0aef7a0..73d3ab5 100644
--- a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
@@ -123,9 +123,18 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 							);
 						}
 
+						const bool testIsUnreported = endedInTest((unsigned int) pidIndexByPid.at(pid));
+
 						pidIndexByPid.erase(pid);
-						// Negative entry in pid vector indicates no regen.
-						pid = -1;
+
+						if (testIsUnreported) {
+							// The test called an exit function. A replacement process is required in order to report it.
+							pid = 0;
+							childProcessesRegenRequired = true;
+						} else {
+							// Negative entry in pid vector indicates no regen.
+							pid = -1;
+						}
 
 						break;
 					}
-- 
2.43.0


From b48cdb7fff89e45581189cf8f23112cc271990ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:50 +0000
Subject: [PATCH 69/78] fix: characters of test name patterns were taken as
 regular expressions

---
 .../Balau/Testing/Impl/TestRunnerExecutor.hpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index d4fc30e..9629bba 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -327,9 +327,24 @@ class TestRunnerExecutor {
 	//  - ? translates to .
 	//
 	private: static std::string createRegexString(const std::string & testName) {
-		static const std::regex questionRegex("\\?");
-		static const std::regex asterixRegex("\\*");
-		return Util::Strings::replaceAll(Util::Strings::replaceAll(testName, questionRegex, "."), asterixRegex, ".*");
+		static const std::string specialCharacters = ".+^$()[]{}|\\";
+		std::string regexString;
+
+		for (const char c : testName) {
+			if (c == '?') {
+				regexString += '.';
+			} else if (c == '*') {
+				regexString += ".*";
+			} else {
+				if (specialCharacters.find(c) != std::string::npos) {
+					regexString += '\\';
+				}
+
+				regexString += c;
+			}
+		}
+
+		return regexString;
 	}
 
 	private: static std::vector<std::regex> parseTestList(const std::string & testList) {
-- 
2.43.0


From 627eae93700be110e2a4f8a538cf968f91332f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:50 +0000
Subject: [PATCH 70/78] fix: a second test run crashed

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index 9629bba..31719ed 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -442,7 +442,7 @@ class TestRunnerExecutor {
 						, ""
 						, testCase.name
 						, testCase.group
-						, std::move(testCase.method)
+						, std::shared_ptr<TestMethodBase>(testCase.method)
 					)
 				);
 
-- 
2.43.0


From 24f3538e0d2254e0914430c4de1015cf8f77377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:50 +0000
Subject: [PATCH 71/78] fix: a test run without a report generator crashed

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index 31719ed..918c5b4 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -307,7 +307,11 @@ class TestRunnerExecutor {
 							writer << " Group duration (core clock time) = " << durationStr(groupDuration) << "\n";
 
 							// Call the report generator for this completed test group.
-							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+
+							if (reportGenerator) {
+								reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							}
+
 
 							break;
 						}
-- 
2.43.0


From cd4831b077821b7e7404537f09181b7cda4daefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:19 +0000
Subject: [PATCH 72/78] fix: the namespaces option of the test runner had no
 effect

---
 src/main/cpp/Balau/Testing/TestRunner.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/TestRunner.hpp b/src/main/cpp/Balau/Testing/TestRunner.hpp
index 0208ff0..6ca07dc 100644
--- a/src/main/cpp/Balau/Testing/TestRunner.hpp
+++ b/src/main/cpp/Balau/Testing/TestRunner.hpp
@@ -586,17 +586,20 @@ class TestRunner : public Impl::TestRunnerBase {
 
 		useNamespaces = useNamespaces_;
 
+		// The test groups are registered with their namespaces.
+		std::unordered_map<std::string, std::vector<Impl::TestCase>> renamed;
+
 		for (auto & testCaseGroup : testCasesByGroup) {
-			auto & testCaseVector = testCaseGroup.second;
+			const std::string groupName = Impl::TestRunnerExecutor::extractTypeName(testCaseGroup.first.c_str(), useNamespaces);
 
-			if (!testCaseVector.empty()) {
-				testCaseVector[0].group->setGroupName(
-					Impl::TestRunnerExecutor::extractTypeName(
-						testCaseVector[0].group->getGroupName().c_str(), useNamespaces
-					)
-				);
+			for (auto & testCase : testCaseGroup.second) {
+				testCase.group->setGroupName(std::string(groupName));
+				testCase.name = groupName + testCase.name.substr(testCaseGroup.first.length());
+				renamed[groupName].emplace_back(std::move(testCase));
 			}
 		}
+
+		testCasesByGroup = std::move(renamed);
 	}
 
 	private: void log(const std::string & string) {
@@ -666,7 +669,7 @@ template <typename TestClassT>
 inline TestGroup<TestClassT>::TestGroup()
 	: TestGroupBase(TestRunner::runner())
 	, executionModels(SingleThreaded | WorkerThreads | WorkerProcesses | ProcessPerTest)
-	, testGroupName(Impl::TestRunnerExecutor::extractTypeName(typeid(*this).name(), false)) {
+	, testGroupName(Impl::TestRunnerExecutor::extractTypeName(typeid(*this).name(), true)) {
 	(void) &instance; // force instantiation
 }
 
@@ -674,7 +677,7 @@ template <typename TestClassT>
 inline TestGroup<TestClassT>::TestGroup(unsigned int executionModels_)
 	: TestGroupBase(TestRunner::runner())
 	, executionModels(executionModels_)
-	, testGroupName(Impl::TestRunnerExecutor::extractTypeName(typeid(*this).name(), false)) {
+	, testGroupName(Impl::TestRunnerExecutor::extractTypeName(typeid(*this).name(), true)) {
 	(void) &instance; // force instantiation
 }
 
-- 
2.43.0


From a35ee36243d5ea01e1f2e6f1d8fb88939b085cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 73/78] fix: test processes that exit wrote the buffered output
 of their parent again

---
 src/main/cpp/Balau/Testing/Writers/StdWriters.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
index 2aabd07..cceabf4 100644
--- a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
+++ b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
@@ -41,7 +41,7 @@ namespace Balau::Testing {
 ///
 class StdOutTestWriter : public TestWriter {
 	public: void writeString(const std::string & str) override {
-		std::cout << str;
+		std::cout << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
@@ -57,7 +57,7 @@ class FileTestWriter : public TestWriter {
 
 	public: void writeString(const std::string & str) override {
 		std::lock_guard<std::mutex> lock(mutex);
-		writeResource.writeStream() << str;
+		writeResource.writeStream() << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
@@ -77,7 +77,7 @@ class OStreamTestWriter : public TestWriter {
 	public: explicit OStreamTestWriter(std::ostream & stream_) : stream(stream_) {}
 
 	public: void writeString(const std::string & str) override {
-		stream << str;
+		stream << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
-- 
2.43.0


From be320eae5b84d2ae8041038617464a7d509e7eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:08 +0000
Subject: [PATCH 74/78] fix: the XML report was malformed with control
 characters and malformed UTF-8 in messages

---
 .../Reporters/SurefireTestReportGenerator.cpp | 47 ++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp b/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
index 4023e9d..63324c0 100644
--- a/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
+++ b/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
@@ -29,6 +29,41 @@
 
 namespace Balau::Testing::Reporters {
 
+// Replace whatever XML 1.0 documents encoded in UTF-8 cannot contain by the replacement character.
+static std::string toXmlText(const std::string & text) {
+	static const char32_t minimums[] = { 0, 0, 0x80, 0x800, 0x10000 };
+	std::string result;
+
+	for (size_t m = 0; m < text.length(); ) {
+		const auto lead = (unsigned char) text[m];
+		const size_t length = lead < 0x80 ? 1 : lead >= 0xF0 ? 4 : lead >= 0xE0 ? 3 : 2;
+		char32_t c = lead < 0x80 ? lead : lead & (0x7FU >> length);
+		bool valid = lead < 0x80 || (lead >= 0xC2 && lead <= 0xF4 && m + length <= text.length());
+
+		for (size_t n = 1; valid && n < length; ++n) {
+			const auto next = (unsigned char) text[m + n];
+			valid = (next & 0xC0U) == 0x80U;
+			c = (c << 6U) | (next & 0x3FU);
+		}
+
+		valid = valid
+			&& c >= minimums[length]
+			&& (c >= 0x20 || c == '\t' || c == '\n' || c == '\r')
+			&& (c < 0xD800 || c > 0xDFFF)
+			&& c != 0xFFFE && c != 0xFFFF && c <= 0x10FFFF;
+
+		if (valid) {
+			result.append(text, m, length);
+			m += length;
+		} else {
+			result += "\xEF\xBF\xBD";
+			++m;
+		}
+	}
+
+	return result;
+}
+
 static void writeProperty(boost::property_tree::ptree & properties, const std::string & name, const std::string & value) {
 	boost::property_tree::ptree & property = properties.add("property", "");
 	property.add("<xmlattr>.name", name);
@@ -71,7 +106,7 @@ void SurefireTestReportGenerator::generate(const Impl::TestGroupBase & group,
 
 	boost::property_tree::ptree & testsuite = report.add("testsuite", "");
 	testsuite.add("<xmlattr>.tests", groupTestResults.size());
-	testsuite.add("<xmlattr>.name", group.getGroupName());
+	testsuite.add("<xmlattr>.name", toXmlText(group.getGroupName()));
 	testsuite.add("<xmlattr>.time", toSeconds(groupDuration.count()));
 	testsuite.add("<xmlattr>.failures", getResultCount(groupTestResults, Impl::TestResult::Result::Failure));
 	testsuite.add("<xmlattr>.errors", getResultCount(groupTestResults, Impl::TestResult::Result::Error));
@@ -82,8 +117,8 @@ void SurefireTestReportGenerator::generate(const Impl::TestGroupBase & group,
 	for (const auto * testResult : groupTestResults) {
 		boost::property_tree::ptree & testcase = testsuite.add("testcase", "");
 
-		testcase.add("<xmlattr>.classname", group.getGroupName());
-		testcase.add("<xmlattr>.name", testResult->testName);
+		testcase.add("<xmlattr>.classname", toXmlText(group.getGroupName()));
+		testcase.add("<xmlattr>.name", toXmlText(testResult->testName));
 		testcase.add("<xmlattr>.time", toSeconds(testResult->duration));
 
 		switch (testResult->result) {
@@ -93,21 +128,21 @@ void SurefireTestReportGenerator::generate(const Impl::TestGroupBase & group,
 
 			case Impl::TestResult::Result::Failure: {
 				boost::property_tree::ptree & failure = testcase.add("failure", "");
-				failure.add("<xmlattr>.message", testResult->resultText);
+				failure.add("<xmlattr>.message", toXmlText(testResult->resultText));
 				failure.add("<xmlattr>.type", "AssertionException");
 				break;
 			}
 
 			case Impl::TestResult::Result::Error: {
 				boost::property_tree::ptree & error = testcase.add("error", "");
-				error.add("<xmlattr>.message", testResult->resultText);
+				error.add("<xmlattr>.message", toXmlText(testResult->resultText));
 				error.add("<xmlattr>.type", "");
 				break;
 			}
 
 			case Impl::TestResult::Result::Ignored: {
 				boost::property_tree::ptree & skipped = testcase.add("skipped", "");
-				skipped.add("<xmlattr>.message", testResult->resultText);
+				skipped.add("<xmlattr>.message", toXmlText(testResult->resultText));
 				break;
 			}
 		}
-- 
2.43.0


From a02469f181f4fd79197a322cd22d1e088a45a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:35 +0000
Subject: [PATCH 75/78] fix: logging threads read the stream of a logger
 without synchronisation

---
 src/main/cpp/Balau/Logging/Logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 2e013dc..6a473ed 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -234,7 +234,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         std::string_view message) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
@@ -272,7 +272,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         const LoggerStringVector & parameters) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
-- 
2.43.0


From 57234e2525ad6ecac1d9fd768e08fb359ffe210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:21 +0000
Subject: [PATCH 76/78] fix: the configuration of a logger was read without the
 logging mutex

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 16 ++++++++++++++++
 src/main/cpp/Balau/Logging/Impl/LoggingState.hpp |  3 +++
 src/main/cpp/Balau/Logging/Logger.cpp            | 12 +-----------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 4d5dfb6..c4cd059 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -223,6 +223,22 @@ void LoggingState::flushAll() {
 	performFlushAll();
 }
 
+std::string LoggingState::getConfiguration(const Logger & logger) {
+	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
+
+	std::ostringstream stream;
+
+	stream << logger.nameSpace << " {\n";
+
+	for (const auto & property : logger.properties) {
+		stream << "    " << property.first << " = " << property.second << "\n";
+	}
+
+	stream << "}\n";
+
+	return stream.str();
+}
+
 void LoggingState::configure(std::string_view configurationText,
                              const std::map<std::string, std::string> & placeholders) {
 	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
index 5d19941..70b994b 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
@@ -64,6 +64,9 @@ class LoggingState final {
 	// Flush all logging streams.
 	void flushAll();
 
+	// Get the current configuration of the specified logger as a string.
+	std::string getConfiguration(const Logger & logger);
+
 	// Reconfigure the logging system from the supplied configuration text.
 	void configure(std::string_view configurationText, const std::map<std::string, std::string> & placeholders);
 
diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 6a473ed..006eac5 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -78,17 +78,7 @@ void Logger::lockConfiguration(bool throwOnReconfigure) {
 }
 
 std::string Logger::getConfiguration() const {
-	std::ostringstream stream;
-
-	stream << nameSpace << " {\n";
-
-	for (const auto & property : properties) {
-		stream << "    " << property.first << " = " << property.second << "\n";
-	}
-
-	stream << "}\n";
-
-	return stream.str();
+	return LoggingState::loggingSystemState().getConfiguration(*this);
 }
 
 void Logger::registerLoggingStreamFactory(const std::string & scheme, LoggingStreamFactory factory) {
-- 
2.43.0


From cc0b7850c2fdbec0d91af7b8b0c44b415c0e4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:33 +0000
Subject: [PATCH 77/78] fix: uniform random numbers of ranges with non-positive
 or equal ends

---
 src/main/cpp/Balau/Util/Impl/RandomImpl.hpp | 15 +++++++++++++--
 src/main/cpp/Balau/Util/Random.hpp          |  3 ++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
index d9fc5ef..a84d98d 100644
--- a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
@@ -20,22 +20,33 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 #define COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 
+#include <cmath>
+#include <limits>
 #include <random>
 
 namespace Balau::Util::Impl {
 
 inline double inclusivise(double upper) {
-	return std::nextafter(upper, upper > 0.0 ? upper + 1.0 : upper - 1.0);
+	return std::nextafter(upper, std::numeric_limits<double>::max());
 }
 
 inline float inclusivise(float upper) {
-	return std::nextafter(upper, upper > 0.0f ? upper + 1.0f : upper - 1.0f);
+	return std::nextafter(upper, std::numeric_limits<float>::max());
 }
 
 template <typename IntegerT> inline IntegerT inclusivise(IntegerT upper) {
 	return upper;
 }
 
+// Uniform real distributions may return their exclusive upper bound due to rounding.
+template <typename T> inline T limit(const std::uniform_real_distribution<T> & distribution, T value) {
+	return value < distribution.b() ? value : std::nextafter(distribution.b(), distribution.a());
+}
+
+template <typename T, typename D> inline T limit(const D & , T value) {
+	return value;
+}
+
 } // namespace Balau::Util::Impl
 
 #endif // COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
diff --git a/src/main/cpp/Balau/Util/Random.hpp b/src/main/cpp/Balau/Util/Random.hpp
index b9c5142..2700147 100644
--- a/src/main/cpp/Balau/Util/Random.hpp
+++ b/src/main/cpp/Balau/Util/Random.hpp
@@ -55,7 +55,8 @@ template <typename T, typename D> class RandomNumberGenerator final {
 	/// Get the next random number.
 	///
 	public: T operator () () {
-		return distribution(generator);
+		const T value = distribution(generator);
+		return Impl::limit(distribution, value);
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 256cc937c6f778ead8e1fb37a348e99fea4f5a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:52 +0000
Subject: [PATCH 78/78] fix: the home directory lookup in the user database
 never ended

---
 src/main/cpp/Balau/Util/User.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/User.hpp b/src/main/cpp/Balau/Util/User.hpp
index cf699c1..b86885a 100644
--- a/src/main/cpp/Balau/Util/User.hpp
+++ b/src/main/cpp/Balau/Util/User.hpp
@@ -95,9 +95,10 @@ struct User final {
 			int s;
 			size_t bufferSize = 512;
 			std::vector<char> buffer(bufferSize);
-			bool repeat = false;
+			bool repeat;
 
 			do {
+				repeat = false;
 				s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result);
 
 				if (result == nullptr) {
@@ -106,7 +107,7 @@ struct User final {
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: user entry not found in passwd."
 						);
-					} else if (errno == ERANGE) {
+					} else if (s == ERANGE) {
 						// Give up at 1MB buffer size.
 						if (bufferSize >= 1048576) {
 							ThrowBalauException(
@@ -122,16 +123,16 @@ struct User final {
 						ThrowBalauException(
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: getpwnam_r raised an error, errno = " +
-							  ::toString(errno)
+							  ::toString(s)
 						);
 					}
 				}
-			} while (!repeat);
+			} while (repeat);
 
 			if (result == nullptr || result->pw_dir == nullptr) {
 				ThrowBalauException(
 					  Exception::UserNotFoundException
-					, ::toString("Failed to locate the user home directory: getpwnam_r raised an error, errno = ", errno)
+					, ::toString("Failed to locate the user home directory: getpwnam_r raised an error, errno = ", s)
 				);
 			}
 
-- 
2.43.0

