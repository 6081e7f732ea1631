From f16d6ade3c8d4f58b9a434a4c37600ba6c504db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 01/99] fix: replaceAll with an empty match string no longer
 loops forever

---
 src/main/cpp/Balau/Util/Impl/StringsImpl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
index 4d5e42c..fa3ea34 100644
--- a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
@@ -43,6 +43,11 @@ void replaceAllImpl(StringT<CharT, T ...> & input, const MatchT & match, const R
 		*count = 0;
 	}
 
+	// An empty match string has nothing to replace.
+	if (matchLength == 0) {
+		return;
+	}
+
 	while (true) {
 		pos = input.find(match, pos);
 
-- 
2.43.0


From 708ca47cd684e75a8c6efa598ce6432a55cc198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 02/99] fix: occurrences of an empty substring no longer loops
 forever

---
 src/main/cpp/Balau/Util/Strings.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index f9c96d0..1e55c39 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -223,11 +223,18 @@ struct Strings final {
 	///
 	template <typename CharT, typename ... T, template <typename ...> class StringT, typename SubstrT>
 	static size_t occurrences(const StringT<CharT, T ...> & str, const SubstrT & substring) {
+		const size_t substringLength = Balau::Util::Impl::length(substring);
+
+		// An empty substring has no countable occurrences.
+		if (substringLength == 0) {
+			return 0;
+		}
+
 		size_t index = 0;
 		size_t count = 0;
 
 		while ((index = str.find(substring, index)) != StringT<CharT, T ...>::npos) {
-			index += Balau::Util::Impl::length(substring);
+			index += substringLength;
 			++count;
 		}
 
-- 
2.43.0


From 453d5b8029adeae59e191239b1585f20e35490be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 03/99] fix: isOctalDigit accepts the digits 0-7 only

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index b44c4ee..3809b88 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -71,7 +71,7 @@ struct Character {
 	/// Is the specified code point one of the ASCII characters 0-7.
 	///
 	static bool isOctalDigit(char32_t c) {
-		return c >= U'0' && c <= U'9';
+		return c >= U'0' && c <= U'7';
 	}
 
 	///
-- 
2.43.0


From 59f78cb3766ac0fa7b9699ff89919705815edaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 04/99] fix: U+10FFFF is a valid code point

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index 3809b88..95631c4 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -301,7 +301,7 @@ struct Character {
 	/////////////////////////////// Validation ////////////////////////////////
 
 	static bool isValid(char32_t c) {
-		return c < 0x10FFFF; // Maximum Unicode code point value.
+		return c <= 0x10FFFF; // Maximum Unicode code point value.
 	}
 
 	//////////////////////////////// Mutation /////////////////////////////////
-- 
2.43.0


From 9cdd9950e7ee1b12a0c7b21de10718afcfb1a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 05/99] fix: toString buffer has room for the most negative
 integer

---
 src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
index a628f3d..167d921 100644
--- a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
@@ -37,8 +37,9 @@ template <typename T, unsigned long N = std::numeric_limits<T>::max()> struct Ch
 	static constexpr size_t count = CharacterCount<T, N / 10>::count + 1;
 };
 
+// The sign and the terminating null character.
 template <typename T> struct CharacterCount<T, 0> {
-	static constexpr size_t count = 1;
+	static constexpr size_t count = 2;
 };
 
 template <typename AllocatorT, typename T>
-- 
2.43.0


From 4a818394f9ad5ea208a94d0eee6805f7f94cbadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 06/99] fix: integer parsing rejects out of range and negative
 unsigned text

---
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    | 52 ++++++++++++++++---
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 6ac0ba3..efee3eb 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -25,6 +25,8 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
+#include <cerrno>
+
 namespace Balau::Impl {
 
 // Checks that the string is not empty and throws a conversion exception if it is.
@@ -75,6 +77,28 @@ inline void validateIntegerConversion(const std::string & value, const char * st
 	}
 }
 
+// Checks that the conversion consumed the whole string and that the value was within the range of the type.
+inline void validateIntegerConversionAndRange(const std::string & value, const char * strEnd) {
+	validateIntegerConversion(value, strEnd);
+
+	if (errno == ERANGE) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, ::toString("String to integer conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
+// Checks that the string does not represent a negative value (which strtoul would silently wrap).
+inline void validateUnsignedValue(const std::string & value) {
+	if (value.find('-') != std::string::npos) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, ::toString("String to unsigned integer conversion of \"", value, "\" failed.")
+		);
+	}
+}
+
 template <typename DstT, typename SrcT> void checkLowerLimit(SrcT n) {
 	const SrcT lowerLimit = std::numeric_limits<DstT>::lowest();
 
@@ -124,8 +148,9 @@ inline long stringToLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, 10);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
@@ -133,8 +158,9 @@ inline long stringToLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, base);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
@@ -142,8 +168,9 @@ inline long long stringToLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, 10);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
@@ -151,8 +178,9 @@ inline long long stringToLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, base);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
@@ -160,8 +188,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, 10);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
@@ -169,8 +199,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, base);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
@@ -178,8 +210,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, 10);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
@@ -187,8 +221,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value, int b
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	Impl::validateUnsignedValue(s);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, base);
-	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerConversionAndRange(s, strEnd);
 	return n;
 }
 
-- 
2.43.0


From 47d9cf810bc06c664854bf9c71a258e69f326786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 07/99] fix: switch-equals-value option without a value no
 longer reads past the arguments

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ce26fba..8059421 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -704,9 +704,9 @@ template <typename KeyT> class CommandLine {
 			const auto & option = optionsByKey.at(key);
 
 			if (option.hasValue) {
-				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 2) {
+				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 3) {
 					ThrowBalauException(Exception::MissingFinalValueException, "");
-				} else if (cleanedArgs.size() - m < 1) {
+				} else if (cleanedArgs.size() - m < 2) {
 					ThrowBalauException(Exception::MissingOptionValueException, optionSwitch);
 				}
 
-- 
2.43.0


From 0279313ebc2e09a6d5b387117d8f66765c389dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 08/99] fix: parsing a second command line discards the
 previous final values

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 8059421..732bd96 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -234,6 +234,7 @@ template <typename KeyT> class CommandLine {
 		using ::toString;
 
 		parsedValuesByKey.clear();
+		finalValues.clear();
 
 		if (args.empty() || (ignoreFirst && args.size() == 1)) {
 			if (commandLineHasFinalValue == HasFinalValue::Yes) {
-- 
2.43.0


From 1c64f731d7b9801033ce2464fdfde26f72064901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 09/99] fix: missing final value is reported when the last
 option is a flag

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 732bd96..b3dca9e 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -771,6 +771,10 @@ template <typename KeyT> class CommandLine {
 				parsedValuesByKey[key] = "";
 			}
 		}
+
+		if (commandLineHasFinalValue == HasFinalValue::Yes && finalValues.empty()) {
+			ThrowBalauException(Exception::MissingFinalValueException, "");
+		}
 	}
 
 	//
-- 
2.43.0


From 803fb38d98efa2b699ecda59f8ed64a9c8598e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 10/99] fix: numeric option values with trailing text or a
 negative unsigned value are rejected

---
 .../cpp/Balau/Application/CommandLine.hpp     | 65 ++++++++++++-------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index b3dca9e..62bf185 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -311,7 +311,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse);
 	}
 
@@ -322,7 +322,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse);
 	}
 
@@ -333,7 +333,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse);
 	}
 
@@ -344,7 +344,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse);
 	}
 
@@ -355,7 +355,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse);
 	}
 
@@ -366,7 +366,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse);
 	}
 
@@ -379,7 +379,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShortOrDefault(KeyT key, short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse, true, defaultValue);
 	}
 
@@ -390,7 +390,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShortOrDefault(KeyT key, unsigned short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse, true, defaultValue);
 	}
 
@@ -401,7 +401,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsIntOrDefault(KeyT key, int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse, true, defaultValue);
 	}
 
@@ -412,7 +412,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedIntOrDefault(KeyT key, unsigned int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse, true, defaultValue);
 	}
 
@@ -423,7 +423,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLongOrDefault(KeyT key, long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse, true, defaultValue);
 	}
 
@@ -434,7 +434,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLongOrDefault(KeyT key, unsigned long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse, true, defaultValue);
 	}
 
@@ -447,7 +447,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloat(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse);
 	}
 
@@ -458,7 +458,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDouble(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse);
 	}
 
@@ -471,7 +471,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloatOrDefault(KeyT key, float defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse, true, defaultValue);
 	}
 
@@ -482,7 +482,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDoubleOrDefault(KeyT key, double defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse, true, defaultValue);
 	}
 
@@ -515,7 +515,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloat(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index);
 	}
 
@@ -526,7 +526,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDouble(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index);
 	}
 
@@ -550,7 +550,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloatOrDefault(float defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -561,7 +561,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDoubleOrDefault(double defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -784,7 +784,7 @@ template <typename KeyT> class CommandLine {
 	//
 	private: template<typename T, typename C> T getOptionAs(KeyT key,
 	                                                        const std::string & typeAsString,
-	                                                        C parse(const std::string &),
+	                                                        C parse(const std::string &, size_t *),
 	                                                        bool orDefault = false,
 	                                                        T defaultValue = T()) const {
 		if (parsedValuesByKey.find(key) == parsedValuesByKey.end()) {
@@ -803,7 +803,17 @@ template <typename KeyT> class CommandLine {
 		const std::string str = parsedValuesByKey.at(key);
 
 		try {
-			const C value = parse(str);
+			if (std::is_unsigned<T>::value && Util::Strings::contains(str, "-")) {
+				throw std::out_of_range(str);
+			}
+
+			size_t end = 0;
+			const C value = parse(str, &end);
+
+			if (end != str.length()) {
+				throw std::invalid_argument(str);
+			}
+
 			return boost::numeric_cast<T>(value);
 		} catch (const std::invalid_argument &) {
 			using ::toString;
@@ -838,7 +848,7 @@ template <typename KeyT> class CommandLine {
 	//  - T is the required type.
 	//
 	private: template<typename T> T getFinalValueAs(const std::string & typeAsString,
-	                                                T parse(const std::string &),
+	                                                T parse(const std::string &, size_t *),
 	                                                size_t index,
 	                                                bool orDefault = false,
 	                                                T defaultValue = T()) const {
@@ -862,7 +872,14 @@ template <typename KeyT> class CommandLine {
 		}
 
 		try {
-			return parse(finalValues[index]);
+			size_t end = 0;
+			const T value = parse(finalValues[index], &end);
+
+			if (end != finalValues[index].length()) {
+				throw std::invalid_argument(finalValues[index]);
+			}
+
+			return value;
 		} catch (const std::invalid_argument &) {
 			ThrowBalauException(
 				Exception::OptionValueException, std::string("Final value is not " + typeAsString + ": " + finalValues[index])
-- 
2.43.0


From 2e6c9bc32192a54d5bba946775381c4ade0d7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 11/99] fix: help text line of an option without documentation
 is terminated

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 62bf185..760c48f 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -649,6 +649,10 @@ template <typename KeyT> class CommandLine {
 
 				first = false;
 			}
+
+			if (docText.empty()) {
+				builder << "\n";
+			}
 		}
 
 		return builder.str();
-- 
2.43.0


From 3a5ad0f9745a2ea7914552f33332ba834ddd9b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 12/99] fix: URL decoding does not read past the end of the
 input

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 2241bfc..36bb004 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -127,7 +127,7 @@ struct UrlDecode {
 				case '%': {
 					std::string thisOutput;
 
-					while (input[index] == '%') {
+					while (index < input.length() && input[index] == '%') {
 						++index;
 
 						if (index == input.length()) {
-- 
2.43.0


From 2cbf871b0f20d537b39501972a0bcd82b0b7c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 13/99] fix: URL decoding handles invalid hexadecimal digits as
 documented

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 36bb004..b47ef2e 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -151,12 +151,23 @@ struct UrlDecode {
 							continue;
 						}
 
+						++index;
+
 						// Try to convert the hex character pair into an unsigned byte.
 						std::string_view v = input.substr(x, 2);
+
+						if (!Character::isHexDigit((unsigned char) v[0]) || !Character::isHexDigit((unsigned char) v[1])) {
+							// Illegal input.. % character not followed by two hexadecimal digits.
+							if (throwOnError) {
+								ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
+							}
+
+							continue;
+						}
+
 						unsigned char b;
 						fromString(b, v, 16);
 						thisOutput += (char) b;
-						++index;
 					}
 
 					bool valid = true;
-- 
2.43.0


From aaa266594771ad8547e58503f16044cb77b3743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 14/99] fix: URL decoding detects invalid UTF-8

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index b47ef2e..6031063 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -176,9 +176,9 @@ struct UrlDecode {
 						int offset = 0;
 
 						while (offset != (int) thisOutput.length()) {
-							Character::getNextUtf8Safe(thisOutput, offset);
+							const char32_t c = Character::getNextUtf8Safe(thisOutput, offset);
 
-							if (offset < 0) {
+							if ((int32_t) c < 0) {
 								// Not valid UTF-8.
 								if (throwOnError) {
 									ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-- 
2.43.0


From eb654947a8b592e76a196f13bdd5be65be3f9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 15/99] fix: URI parsing does not read past the end of
 malformed UTF-8

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index cf4a049..64b056e 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -167,7 +167,7 @@ struct UriComponents {
 		// of letters, digits, plus (+), period (.), or hyphen (-).
 		//
 
-		c = Character::getNextUtf8(uri, offset);
+		c = Character::getNextUtf8Safe(uri, offset);
 
 		if (!Character::isAlpha(c)) {
 			ThrowBalauException(
@@ -177,7 +177,7 @@ struct UriComponents {
 		}
 
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U':') { // End of scheme.
 				break;
@@ -208,13 +208,13 @@ struct UriComponents {
 				pathOffset = short(offset);
 			} else {
 				while (offset < length) {
-					c = Character::getNextUtf8(uri, offset);
+					c = Character::getNextUtf8Safe(uri, offset);
 
 					if (hostOffset == -1 && c == U'[') { // [] enclosed IPv6 address.
 						hostOffset = short(offset - 1);
 
 						while (offset < length && c != U']') {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 						}
 
 						if (c != U']') { // No closing ']'?
@@ -244,7 +244,7 @@ struct UriComponents {
 						portOffset = short(offset);
 
 						while (offset < length) {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 
 							if (c == U'@') { // Deprecated password.
 								ThrowBalauException(
@@ -300,7 +300,7 @@ struct UriComponents {
 
 		// Mandatory path section.
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U'?' || c == U'#') { // End of path.
 				break;
@@ -312,7 +312,7 @@ struct UriComponents {
 			queryOffset = short(offset);
 
 			while (offset < length) {
-				c = Character::getNextUtf8(uri, offset);
+				c = Character::getNextUtf8Safe(uri, offset);
 
 				if (c == U'#') { // End of query.
 					break;
-- 
2.43.0


From ecb23bce4e194be13423facc804dcf95dba69907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 16/99] fix: URI without a scheme delimiter is rejected

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 64b056e..6ffb451 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -189,6 +189,10 @@ struct UriComponents {
 			}
 		}
 
+		if (c != U':') {
+			ThrowBalauException(Exception::InvalidUriException, "Invalid scheme (no terminating colon).");
+		}
+
 		schemeEndOffset = short(offset - 1);
 		int userinfoEnd = -1;
 
-- 
2.43.0


From c7e9aa962d3de04ab5afaaebf8fc2cb6cd0bac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 17/99] fix: URI with user information has a non empty host
 that follows it

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 6ffb451..1babae2 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -217,6 +217,13 @@ struct UriComponents {
 					if (hostOffset == -1 && c == U'[') { // [] enclosed IPv6 address.
 						hostOffset = short(offset - 1);
 
+						if (hostOffset != (userinfoEnd != -1 ? userinfoEnd + 1 : schemeEndOffset + 3)) {
+							ThrowBalauException(
+								Exception::InvalidUriException
+							, "[] based host was found with preceding text."
+							);
+						}
+
 						while (offset < length && c != U']') {
 							c = Character::getNextUtf8Safe(uri, offset);
 						}
@@ -237,6 +244,13 @@ struct UriComponents {
 						pathOffset = short(offset);
 						break;
 					} else if (userinfoEnd == -1 && c == U'@') { // End of userinfo.
+						if (hostOffset != -1) {
+							ThrowBalauException(
+								Exception::InvalidUriException
+							, "User information was found after the host."
+							);
+						}
+
 						userinfoEnd = offset - 1;
 						userinfoOffset = short(schemeEndOffset + 3);
 					} else if (c == U':' && (userinfoEnd != -1 || offset > schemeEndOffset + 2)) { // Start of port.
@@ -267,7 +281,7 @@ struct UriComponents {
 				}
 
 				if (hostOffset == -1) {
-					if (userinfoOffset != -1 && offset > userinfoEnd + 1) {
+					if (userinfoOffset != -1) {
 						hostOffset = short(userinfoEnd + 1);
 					} else if (offset > schemeEndOffset + 2) {
 						hostOffset = short(schemeEndOffset + 3);
@@ -288,7 +302,7 @@ struct UriComponents {
 						Exception::InvalidUriException, "Authority section does not contain host information."
 					);
 				}
-			} else if (offset == hostOffset + 1) {
+			} else if (hostOffset == (pathOffset != -1 ? pathOffset : offset)) {
 				ThrowBalauException(
 					Exception::InvalidUriException, "Authority section does not contain host information."
 				);
-- 
2.43.0


From c3a5a68e100cf7681325b4f90dead98984800fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 18/99] fix: empty URI query and fragment are not part of the
 preceding component

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 1babae2..1b1b776 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -326,7 +326,7 @@ struct UriComponents {
 		}
 
 		// Optional query section.
-		if (offset < length && c == U'?') {
+		if (c == U'?') {
 			queryOffset = short(offset);
 
 			while (offset < length) {
@@ -339,7 +339,7 @@ struct UriComponents {
 		}
 
 		// Optional fragment section.
-		if (offset < length) {
+		if (c == U'#') {
 			fragmentOffset = short(offset);
 		}
 
-- 
2.43.0


From 4e7e0480678e8bc8b8979006f2812efdebc4f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 19/99] fix: invalid URI port is reported with an invalid URI
 exception

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 1b1b776..8eb2f46 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -345,10 +345,22 @@ struct UriComponents {
 
 		// Pre-convert the port into an unsigned short if it is set.
 		if (portOffset != -1) {
-			const unsigned long p = std::stoul(uri.substr((size_t) portOffset));
+			unsigned long p = 0;
 
-			if (p > UINT16_MAX) {
-				ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+			for (int m = portOffset; m < pathOffset; m++) {
+				if (uri[m] < '0' || uri[m] > '9') {
+					ThrowBalauException(Exception::InvalidUriException, "Invalid port number: not a decimal number.");
+				}
+
+				p = p * 10 + (unsigned long) (uri[m] - '0');
+
+				if (p > UINT16_MAX) {
+					ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+				}
+			}
+
+			if (portOffset == pathOffset) {
+				ThrowBalauException(Exception::InvalidUriException, "Invalid port number: empty.");
 			}
 
 			parsedPort = (unsigned short) p;
-- 
2.43.0


From e7bd9c8760e8cf575af28a25568527694bce7bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 20/99] fix: path normalisation removes all resolvable parent
 components

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 31 ++-----------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 8eb2f46..76bc340 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -68,38 +68,13 @@ struct UriComponents {
 		const auto pathComponents = Util::Strings::split(path, "/");
 		const bool absolute = Util::Strings::startsWith(path, "/");
 		std::vector<std::string_view> newPathComponents;
-		std::vector<size_t> pendingComponents;
-		size_t index = 0;
-		bool lastWasDotDot = false;
 
 		for (const auto & pathComponent : pathComponents) {
-			if (pathComponent == "..") {
-				if (!pendingComponents.empty()) {
-					pendingComponents.pop_back();
-					lastWasDotDot = true;
-				} else {
-					newPathComponents.push_back(pathComponent);
-				}
+			if (pathComponent == ".." && !newPathComponents.empty() && newPathComponents.back() != "..") {
+				newPathComponents.pop_back();
 			} else {
-				if (lastWasDotDot) {
-					// Commit pending components.
-					for (size_t componentIndex : pendingComponents) {
-						newPathComponents.push_back(pathComponents[componentIndex]);
-					}
-
-					pendingComponents.clear();
-					lastWasDotDot = false;
-				}
-
-				pendingComponents.push_back(index);
+				newPathComponents.push_back(pathComponent);
 			}
-
-			++index;
-		}
-
-		// Commit remaining pending components.
-		for (size_t componentIndex : pendingComponents) {
-			newPathComponents.push_back(pathComponents[componentIndex]);
 		}
 
 		return (absolute ? "/" : "") + Util::Strings::joinContainer("/", newPathComponents);
-- 
2.43.0


From 911cdfbbf57d0b7e5f6a29cf86def71fe3685ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 21/99] fix: path normalisation removes "." components as
 documented

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 76bc340..d73f00a 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -70,7 +70,9 @@ struct UriComponents {
 		std::vector<std::string_view> newPathComponents;
 
 		for (const auto & pathComponent : pathComponents) {
-			if (pathComponent == ".." && !newPathComponents.empty() && newPathComponents.back() != "..") {
+			if (pathComponent == ".") {
+				continue;
+			} else if (pathComponent == ".." && !newPathComponents.empty() && newPathComponents.back() != "..") {
 				newPathComponents.pop_back();
 			} else {
 				newPathComponents.push_back(pathComponent);
-- 
2.43.0


From 9d36dfdcd9985ce4cc4227cc3e76f1175901aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 22/99] fix: SingleTimeExecutor starts in the not executed
 state

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..f84a5e0 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -122,7 +122,7 @@ class SingleTimeExecutor {
 
 	private: std::function<void ()> code;
 	private: std::function<void ()> destructorCode;
-	private: std::atomic<bool> executed;
+	private: std::atomic<bool> executed { false };
 	private: std::mutex mutex;
 };
 
-- 
2.43.0


From 306308ea95ce0d203408873192ce998ede231170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 23/99] fix: full and empty of ArrayBlockingQueue do not race
 with queue operations

---
 src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
index db186db..c0f3023 100644
--- a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
+++ b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
@@ -29,6 +29,7 @@
 #include <Balau/Container/BlockingQueue.hpp>
 #include <Balau/Type/StdTypes.hpp>
 
+#include <atomic>
 #include <condition_variable>
 
 namespace Balau::Container {
@@ -233,7 +234,7 @@ template <typename T> class ArrayBlockingQueue : public BlockingQueue<T> {
 	}
 
 	private: std::vector<T> elements;
-	private: size_t count;
+	private: std::atomic<size_t> count; // Read without the lock by full() and empty().
 	private: size_t head;
 	private: size_t tail;
 	private: std::mutex mutex;
-- 
2.43.0


From f45b7c336a4cb37aaae70d72196e45eec377f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 24/99] fix: ThreadLocalInstance of types without a default
 constructor can be used

---
 src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
index 3af30cf..44a6043 100644
--- a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
+++ b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
@@ -65,12 +65,12 @@ class ThreadLocalInstance<T, typename std::enable_if<std::is_default_constructib
 };
 
 template <typename T>
-class ThreadLocalInstance<T, std::negation<typename std::enable_if<std::is_default_constructible<T>::value>::type>> {
+class ThreadLocalInstance<T, typename std::enable_if<!std::is_default_constructible<T>::value>::type> {
 	///
 	/// Get the thread local instance, instantiating it with the supplied function if necessary.
 	///
 	public: T & operator () (std::function<T * ()> instantiate) {
-		if (instance.get()) {
+		if (!instance.get()) {
 			instance.reset(instantiate());
 		}
 
-- 
2.43.0


From 7943446be3698b4815df176467ad5ad557f52633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 25/99] fix: terminateProcess terminates a running process

---
 src/main/cpp/Balau/Concurrent/Fork.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/Fork.hpp b/src/main/cpp/Balau/Concurrent/Fork.hpp
index 1e723aa..c28a405 100644
--- a/src/main/cpp/Balau/Concurrent/Fork.hpp
+++ b/src/main/cpp/Balau/Concurrent/Fork.hpp
@@ -290,12 +290,12 @@ class Fork {
 				}
 
 				default: {
-					kill(pid, SIGKILL);
 					break;
 				}
 			}
 		}
 
+		kill(pid, SIGKILL);
 		return TerminationReport();
 	}
 };
-- 
2.43.0


From 8245cdde7eec87bc14e9d802ae4e6e1e70e9e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 26/99] fix: object tries can be copy assigned

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index bebd49f..54841d5 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -799,7 +799,8 @@ template <typename T> class ObjectTrieNode {
 	private: explicit ObjectTrieNode(T && value_)
 		: value(std::move(value_)) {}
 
-	private: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
+	// Required public for std::vector
+	public: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
 		value = copy.value;
 		children = copy.children;
 		return *this;
-- 
2.43.0


From bd106476fcf20f2acbed1b45b1805c2d53319c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 27/99] fix: iterating over the children of a trie node visits
 every child

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index 54841d5..2e53554 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -753,28 +753,28 @@ template <typename T> class ObjectTrieNode {
 	/// Get a depth iterator positioned at the beginning of the trie.
 	///
 	public: ObjectTrieNode<T> * begin() {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get a const depth iterator positioned at the beginning of the trie.
 	///
 	public: const ObjectTrieNode<T> * begin() const {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get an iterator positioned at the end of the vector of children.
 	///
 	public: ObjectTrieNode<T> * end() {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	///
 	/// Get a const iterator positioned at the end of the vector of children.
 	///
 	public: const ObjectTrieNode<T> * end() const {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 932384975714ed7859fb021d3ed1e6b4533080e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 28/99] fix: trie cascade functions apply to every cascaded
 value

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index 2e53554..28507d6 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -814,16 +814,16 @@ template <typename T> class ObjectTrieNode {
 	}
 
 	// Used in the public cascade copy method.
-	private: void cascadeChildren(const ObjectTrieNode<T> & toCascade) {
+	private: template <typename U> void cascadeChildren(const ObjectTrieNode<T> & toCascade, U copyFunction) {
 		for (size_t m = 0; m < toCascade.children.size(); m++) {
 			const ObjectTrieNode<T> & childToCascade = toCascade.children[m];
 			ObjectTrieNode<T> * selfChild = find(childToCascade.value);
 
 			if (selfChild) {
-				selfChild->value = childToCascade.value;
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->value = copyFunction(childToCascade.value);
+				selfChild->cascadeChildren(childToCascade, copyFunction);
 			} else {
-				addAndReturnChild(childToCascade.value).cascadeChildren(childToCascade);
+				addAndReturnChild(copyFunction(childToCascade.value)).cascadeChildren(childToCascade, copyFunction);
 			}
 		}
 	}
@@ -836,9 +836,9 @@ template <typename T> class ObjectTrieNode {
 
 			if (selfChild) {
 				selfChild->value = moveFunction(childToCascade.value);
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->cascadeChildren(childToCascade, moveFunction);
 			} else {
-				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade);
+				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade, moveFunction);
 			}
 		}
 	}
@@ -2299,7 +2299,7 @@ template <typename T> class ObjectTrie {
 		}
 
 		trieRoot.value = copyFunction(toCascade.trieRoot.value);
-		trieRoot.cascadeChildren(toCascade.trieRoot);
+		trieRoot.cascadeChildren(toCascade.trieRoot, copyFunction);
 	}
 
 	///
-- 
2.43.0


From ca2117c7e3e97dbb77ea74022763c5a87b8f195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 29/99] fix: dependency graph iterators can be copied and used
 with edge data

---
 .../cpp/Balau/Container/DependencyGraph.hpp   | 38 ++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/Balau/Container/DependencyGraph.hpp b/src/main/cpp/Balau/Container/DependencyGraph.hpp
index 914a2e4..09879ca 100644
--- a/src/main/cpp/Balau/Container/DependencyGraph.hpp
+++ b/src/main/cpp/Balau/Container/DependencyGraph.hpp
@@ -109,12 +109,14 @@ class DependencyGraph {
 		/// Create an iterator by copying the supplied iterator.
 		///
 		public: iterator(const iterator & copy)
-			: vertexIter(copy.vertexIter) {}
+			: graph(copy.graph)
+			, vertexIter(copy.vertexIter) {}
 
 		///
 		/// Set the current iterator to a copy of the supplied iterator.
 		///
 		public: iterator & operator = (const iterator & copy) {
+			graph = copy.graph;
 			vertexIter = copy.vertexIter;
 			return *this;
 		}
@@ -140,28 +142,28 @@ class DependencyGraph {
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: VertexT & operator * () {
-			return graph[*vertexIter];
+			return (*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: const VertexT & operator * () const {
-			return graph[*vertexIter];
+			return (*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
-		public: VertexT & operator -> () {
-			return &graph[*vertexIter];
+		public: VertexT * operator -> () {
+			return &(*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
-		public: const VertexT & operator -> () const {
-			return &graph[*vertexIter];
+		public: const VertexT * operator -> () const {
+			return &(*graph)[*vertexIter];
 		}
 
 		///
@@ -178,13 +180,13 @@ class DependencyGraph {
 			return vertexIter != rhs.vertexIter;
 		}
 
-		friend class DependencyGraph<VertexT>;
+		friend class DependencyGraph<VertexT, EdgeT, GraphT>;
 
 		private: explicit iterator(Graph & graph_, VertexIterator vertexIter_)
-			: graph(graph_)
+			: graph(&graph_)
 			, vertexIter(vertexIter_) {}
 
-		private: Graph & graph;
+		private: Graph * graph;
 		private: VertexIterator vertexIter;
 	};
 
@@ -196,12 +198,14 @@ class DependencyGraph {
 		/// Create an iterator by copying the supplied iterator.
 		///
 		public: const_iterator(const const_iterator & copy)
-			: vertexIter(copy.vertexIter) {}
+			: graph(copy.graph)
+			, vertexIter(copy.vertexIter) {}
 
 		///
 		/// Set the current iterator to a copy of the supplied iterator.
 		///
 		public: const_iterator & operator = (const const_iterator & copy) {
+			graph = copy.graph;
 			vertexIter = copy.vertexIter;
 			return *this;
 		}
@@ -227,14 +231,14 @@ class DependencyGraph {
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: const VertexT & operator * () const {
-			return graph[*vertexIter];
+			return (*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
-		public: const VertexT & operator -> () const {
-			return &graph[*vertexIter];
+		public: const VertexT * operator -> () const {
+			return &(*graph)[*vertexIter];
 		}
 
 		///
@@ -251,13 +255,13 @@ class DependencyGraph {
 			return vertexIter != rhs.vertexIter;
 		}
 
-		friend class DependencyGraph<VertexT>;
+		friend class DependencyGraph<VertexT, EdgeT, GraphT>;
 
 		private: explicit const_iterator(const Graph & graph_, VertexIterator vertexIter_)
-			: graph(graph_)
+			: graph(&graph_)
 			, vertexIter(vertexIter_) {}
 
-		private: const Graph & graph;
+		private: const Graph * graph;
 		private: VertexIterator vertexIter;
 	};
 
-- 
2.43.0


From 91510948641cea433f6959a557e7e385817bd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 30/99] fix: short property texts left the parsed names and
 values dangling

---
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 9ddb8c0..5993dfe 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -106,6 +106,9 @@ template <typename TokenT> class ScannedTokens final {
 		, text(std::move(text_))
 		, tokens(tokens_)
 		, startOffsets(startOffsets_) {
+		// Short texts must also be held on the heap, as string views of the text remain in use after it is moved.
+		text.reserve(sizeof(std::string));
+
 		Assert::assertion(tokens.back() == TokenT::EndOfFile, "ScannedTokens must end with an EndOfFile token.");
 	}
 
-- 
2.43.0


From 19e2363c16dc171cc47098fa27098a0f0d204e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 31/99] fix: comments starting with an exclamation mark were
 refused

---
 src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index b71fab4..52542d0 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -388,7 +388,11 @@ class PropertyParser {
 	}
 
 	private: std::unique_ptr<AST::PropertyNode> produceComment() {
-		scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash token to begin comment production.");
+		scannedTokens.expect(
+			  std::vector<PropertyToken> { PropertyToken::Hash, PropertyToken::Exclamation }
+			, "Bug? Expected hash or exclamation token to begin comment production."
+		);
+
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
 		std::string_view text = token.text;
-- 
2.43.0


From 280bd9c276c7f92f4cba251dca0586bd303e45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 32/99] fix: the text of an empty comment or include was the
 following line break

---
 src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index 52542d0..761915e 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -371,7 +371,7 @@ class PropertyParser {
 		scannedTokens.expect(PropertyToken::Arobase, "Bug? Expected arobase token to begin comment production.");
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
 			text = extend(text, token.text);
@@ -395,7 +395,7 @@ class PropertyParser {
 
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
 			text = extend(text, token.text);
-- 
2.43.0


From 575c56b583d27b9f80eb0ae3686a8f565d6ef8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 33/99] fix: a comment ending with a backslash swallowed the
 next line

---
 src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index 761915e..1cc8d58 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -398,6 +398,12 @@ class PropertyParser {
 		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
+			if (token.token == PropertyToken::EscapedLineBreak) {
+				// Comments are not continued, thus the backslash is the end of the comment.
+				text = extend(text, token.text.substr(0, 1));
+				break;
+			}
+
 			text = extend(text, token.text);
 			scannedTokens.consume();
 			token = scannedTokens.get();
-- 
2.43.0


From 3a5efe0019854477f98bc51061492596c125eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 34/99] fix: malformed UTF-8 was not detected during scanning

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 1ad720e..eee5025 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -97,9 +97,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if (currentChar == std::char_traits<char32_t>::eof()) { // Negative value returned.
 				ThrowBalauException(
 					  Exception::SyntaxErrorException
 					, "Invalid UTF-8 text found during parsing of string literal", calculateCurrentCodeSpan()
@@ -118,9 +118,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if (currentChar == std::char_traits<char32_t>::eof()) { // Negative value returned.
 				container.push_back(errorReport(calculateCurrentCodeSpan()));
 				return false;
 			}
@@ -245,6 +245,10 @@ template <typename TokenT> class AbstractScanner {
 	}
 
 	protected: CodeSpan calculateCurrentCodeSpan() {
+		if (tokens.empty()) {
+			return CodeSpan(1, 1, 1, 1);
+		}
+
 		return RandomAccessScannedTokens<TokenT>::determineCodeSpan(
 			text, tokens, startOffsets, (unsigned int) tokens.size() - 1
 		);
-- 
2.43.0


From 3debe5f18704f15eb9e5f5db9e5d1bbde44c6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 35/99] fix: putting back the first character of the text read
 before the text when it was a multi-byte character

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index eee5025..7fd6f30 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -134,15 +134,13 @@ template <typename TokenT> class AbstractScanner {
 			return;
 		}
 
-		if (currentEndOffset > 1) {
-			Character::retreatUtf8(text, currentEndOffset);
+		Character::retreatUtf8(text, currentEndOffset);
+
+		if (currentEndOffset > 0) {
 			Character::retreatUtf8(text, currentEndOffset);
 			currentChar = Character::getNextUtf8(text, currentEndOffset);
-		} else if (currentEndOffset == 1) {
-			Character::retreatUtf8(text, currentEndOffset);
+		} else {
 			currentChar = 0;
-		} else { // currentEndOffset == 0
-			// NOP
 		}
 	}
 
-- 
2.43.0


From fc0dd8c4c9c8b76ba7aa84a712d15a2fd59a1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 36/99] fix: composite properties with equal content were not
 equal

---
 src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 670622d..6d1b988 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -32,6 +32,7 @@
 #include <Balau/Lang/Common/CodeSpan.hpp>
 #include <Balau/Type/Character.hpp>
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <vector>
@@ -339,7 +340,10 @@ class CompositeProperty final : public PropertyNode {
 			ret = false;
 		} else {
 			ret = name == o->name
-				&& nodes == o->nodes
+				&& std::equal(
+					  nodes.begin(), nodes.end(), o->nodes.begin(), o->nodes.end()
+					, [] (const auto & l, const auto & r) { return *l == *r; }
+				)
 				&& PropertyNode::operator == (rhs);
 		}
 
-- 
2.43.0


From 1abb2beda6ea9240dacd88a2bba96a6be56ba798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 37/99] fix: printing a value that ends with a continuation by
 a carriage return lost the line end

---
 .../cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp b/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp
index 4199d94..a1d730a 100644
--- a/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Util/PropertyAstToString.hpp
@@ -28,6 +28,7 @@
 
 #include <Balau/Exception/BalauException.hpp>
 #include <Balau/Lang/Property/Lang/PropertyAst.hpp>
+#include <Balau/Util/Strings.hpp>
 
 namespace Balau::Lang::Property::AST {
 
@@ -77,6 +78,12 @@ class PropertyAstToString : public PropertyVisitor {
 		pl.write(object.getName());
 		pl.write(" = ");
 		pl.write(object.getValue());
+
+		if (Util::Strings::endsWith(object.getValue(), "\\\r")) {
+			// The final line continuation takes the line feed as part of its line break.
+			pl.write("\n");
+		}
+
 		pl.write("\n");
 	}
 
-- 
2.43.0


From 8608f180415a31ed2f51aea951f471884b48fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 38/99] fix: an escape sequence that follows a line
 continuation was not normalised

---
 .../Balau/Lang/Property/Lang/PropertyAst.hpp  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 6d1b988..ac9892a 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -116,7 +116,7 @@ class PropertyNode { // Abstract
 				switch (c) {
 					case U'\r':
 					case U'\n': {
-						skipLineContinuation(input, inOffset, output, outOffset);
+						skipLineContinuation(input, inOffset);
 						break;
 					}
 
@@ -148,33 +148,33 @@ class PropertyNode { // Abstract
 	protected: PropertyNode(PropertyNode && rhs) noexcept
 		: codeSpan(rhs.codeSpan) {}
 
-	private: static void skipLineContinuation(const std::string_view & input,
-	                                          int & inOffset,
-	                                          std::string & output,
-	                                          int & outOffset) {
+	private: static void skipLineContinuation(const std::string_view & input, int & inOffset) {
 		if (inOffset == (int) input.length()) {
 			return; // Last character pair is an escaped CR or LF.
 		}
 
-		char32_t c = Character::getNextUtf8Safe(input, inOffset);
+		int nextOffset = inOffset;
+		char32_t c = Character::getNextUtf8Safe(input, nextOffset);
 
 		if (c == U'\r' || c == U'\n') {
+			inOffset = nextOffset;
+
 			if (inOffset == (int) input.length()) {
 				return; // Last character triplet is an escaped CRLF or LFCR.
 			}
 
-			c = Character::getNextUtf8Safe(input, inOffset);
+			c = Character::getNextUtf8Safe(input, nextOffset);
 		}
 
 		while (Character::isBlank(c)) {
+			inOffset = nextOffset;
+
 			if (inOffset == (int) input.length()) {
 				return; // End of string.
 			}
 
-			c = Character::getNextUtf8Safe(input, inOffset);
+			c = Character::getNextUtf8Safe(input, nextOffset);
 		}
-
-		Character::setUtf8AndAdvanceOffset(output, outOffset, c);
 	}
 };
 
-- 
2.43.0


From 219b5dc94808b398232f5997be282780ebcda7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 39/99] fix: resetting scanned tokens lost the code span of the
 first token

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 5993dfe..31ee0e6 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -481,16 +481,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		, currentIndex(0)
 		, currentCodeSpan(1, 1, 1, 1) {
 		whitespaceModeStack.push(WhitespaceMode::DoNotConsume);
-		if (scannedTokens.tokens.size() > 1) {
-			RandomAccessScannedTokens<TokenT>::determineNewEnd(
-				  scannedTokens.tokens[0]
-				, scannedTokens.text
-				, scannedTokens.startOffsets[0]
-				, scannedTokens.startOffsets[1]
-				, currentCodeSpan.end
-				, lineLengthCache
-			);
-		}
+		calculateFirstEnd();
 	}
 
 	///
@@ -505,6 +496,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		currentIndex = 0;
 		currentCodeSpan = CodeSpan(1, 1, 1, 1);
 		lineLengthCache.clear();
+		calculateFirstEnd();
 	}
 
 	///
@@ -924,6 +916,19 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: void calculateFirstEnd() {
+		if (scannedTokens.tokens.size() > 1) {
+			RandomAccessScannedTokens<TokenT>::determineNewEnd(
+				  scannedTokens.tokens[0]
+				, scannedTokens.text
+				, scannedTokens.startOffsets[0]
+				, scannedTokens.startOffsets[1]
+				, currentCodeSpan.end
+				, lineLengthCache
+			);
+		}
+	}
+
 	private: void advanceCurrentIndex() {
 		if (currentIndex == scannedTokens.tokens.size() - 1) {
 			return;
-- 
2.43.0


From d45af14c97810bcbed9239cf169208c06784cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 40/99] fix: the code span of a single scanned token started at
 its end

---
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 31ee0e6..0cc653a 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -247,11 +247,11 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 				, lineLengthCache
 			);
 
-			startPosition = endPosition;
-
 			if (index == thisIndex) {
 				return CodeSpan(startPosition, endPosition);
 			}
+
+			startPosition = endPosition;
 		}
 
 		determineNewEnd(
-- 
2.43.0


From 1dc1b5f1dc1c6248cb2bff2fcee799d610c63d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 41/99] fix: putting back to a marker went too far when
 whitespace is consumed

---
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 0cc653a..cebb8c0 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -737,10 +737,8 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			);
 		}
 
-		const auto steps = currentIndex - marker.index;
-
-		for (size_t m = 0; m < steps; m++) {
-			putBack();
+		while (currentIndex > marker.index) {
+			retreatCurrentIndex();
 		}
 	}
 
-- 
2.43.0


From bc14eb2b70320fa3b5b3023813e125d80b9a0f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 42/99] fix: putting back a token that follows skipped
 whitespace gave the same token again

---
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index cebb8c0..c828cb0 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -751,8 +751,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 	public: void putBack() {
 		const std::vector<TokenT> & tokens = scannedTokens.tokens;
 
-		retreatCurrentIndex();
-
+		// The whitespace and comments that were skipped in order to reach the current token.
 		switch (whitespaceModeStack.top()) {
 			case WhitespaceMode::ConsumeWhitespaceAndComments: {
 				while (currentIndex > 0 && (tokens[currentIndex - 1] == TokenT::Blank || tokens[currentIndex - 1] == TokenT::LineBreak || tokens[currentIndex - 1] == TokenT::CommentLine)) {
@@ -814,6 +813,8 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 				break;
 			}
 		}
+
+		retreatCurrentIndex();
 	}
 
 	///
-- 
2.43.0


From 1ed8b6a584f41045028c01ec15dd897454d1440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 43/99] fix: a comment block within a line ended the line in
 the code spans

---
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index c828cb0..5d24b5a 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -340,6 +340,12 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 			const std::vector<size_t> lineLengths = Util::Strings::lineLengths(thisText);
 			const bool hasCurrentLine = !std::regex_search(thisText, endLineBreakRegex);
 
+			if (hasCurrentLine && lineLengths.size() == 1) {
+				// A comment without a line break.
+				endPosition.column += nextOffset - thisOffset;
+				return;
+			}
+
 			using ::toString;
 
 			Assert::assertion(
-- 
2.43.0


From 5afc08ae140090b6c35b061aee45dfc2184c027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 44/99] fix: putting back tokens corrupted the line lengths
 used for the code spans

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp   | 60 ++++++++++---------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 5d24b5a..b301ecf 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -392,44 +392,39 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	}
 
 	// Updates in place the supplied start position when retreating.
-	// Also updates the line length cache when a line break is encountered.
+	// The line length cache must end with the lines of the supplied token.
 	private: static void determineNewStart(TokenT token,
 	                                       const std::string & fullText,
 	                                       unsigned int thisOffset,
 	                                       unsigned int nextOffset,
 	                                       CodePosition & startPosition,
-	                                       std::vector<unsigned int> & lineLengthCache) {
-		static const std::regex lineBreakRegex = std::regex("\n\r|\r\n|\n|\r");
-
-		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
-			const unsigned int lineBreaks = (unsigned int) Util::Strings::occurrences(fullText.substr(thisOffset, nextOffset - thisOffset), lineBreakRegex);
+	                                       const std::vector<unsigned int> & lineLengthCache) {
+		const size_t lineBreaks = countLineBreaks(token, fullText, thisOffset, nextOffset);
 
-			using ::toString;
-
-			Assert::assertion(
-				  lineBreaks != 0
-				, [&] () {
-				  	return toString(
-						  "A line break token was supplied in the determineNewStart function"
-						, "call but no line end was found in the supplied text. "
-						, "Start offset = ", thisOffset
-						, ", end offset = ", nextOffset
-						, ", token text = ", fullText.substr(thisOffset, nextOffset - thisOffset)
-					);
-				}
-			);
-
-			for (size_t m = 0; m < lineBreaks; m++) {
-				startPosition.column = lineLengthCache.back() + 1; // one indexed column position
-				lineLengthCache.pop_back();
-			}
-
-			startPosition.line -= lineBreaks;
+		if (lineBreaks > 0) {
+			const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
+			const size_t firstLine = lineLengthCache.size() - lineBreaks;
+			startPosition.line -= (unsigned int) lineBreaks;
+			startPosition.column = 1 + lineLengthCache[firstLine] - (unsigned int) Util::Strings::lineLengths(thisText)[0];
 		} else {
 			startPosition.column -= nextOffset - thisOffset;
 		}
 	}
 
+	// The number of entries that the token has in the line length cache.
+	private: static size_t countLineBreaks(TokenT token,
+	                                       const std::string & fullText,
+	                                       unsigned int thisOffset,
+	                                       unsigned int nextOffset) {
+		static const std::regex lineBreakRegex = std::regex("\n\r|\r\n|\n|\r");
+
+		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
+			return Util::Strings::occurrences(fullText.substr(thisOffset, nextOffset - thisOffset), lineBreakRegex);
+		}
+
+		return 0;
+	}
+
 	friend class ScannerApiScannedTokens<TokenT>;
 
 	private: ScannedTokens<TokenT> scannedTokens;
@@ -960,6 +955,17 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			return;
 		}
 
+		if (currentIndex < scannedTokens.tokens.size() - 1) {
+			lineLengthCache.resize(
+				lineLengthCache.size() - RandomAccessScannedTokens<TokenT>::countLineBreaks(
+					  scannedTokens.tokens[currentIndex]
+					, scannedTokens.text
+					, scannedTokens.startOffsets[currentIndex]
+					, scannedTokens.startOffsets[currentIndex + 1]
+				)
+			);
+		}
+
 		currentCodeSpan.end = currentCodeSpan.start;
 
 		RandomAccessScannedTokens<TokenT>::determineNewStart(
-- 
2.43.0


From 2f405be61710a3dc07ddc625a56aa7e791fe98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 45/99] fix: the iterators of scanned tokens could not be used

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp   | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index b301ecf..d6fb6cd 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -1000,7 +1000,7 @@ template <typename TokenT> class IterativeScannedTokens final {
 		private: const IterativeScannedTokens<TokenT> * parent;
 		private: const size_t index;
 
-		public: ConstElement(const ScannedTokens<TokenT> * parent_, size_t index_)
+		public: ConstElement(const IterativeScannedTokens<TokenT> * parent_, size_t index_)
 			: parent(parent_)
 			, index(index_) {}
 
@@ -1022,7 +1022,7 @@ template <typename TokenT> class IterativeScannedTokens final {
 		private: const IterativeScannedTokens<TokenT> * parent;
 		private: size_t index;
 
-		private: explicit const_iterator(const ScannedTokens<TokenT> * parent_, size_t index_)
+		private: explicit const_iterator(const IterativeScannedTokens<TokenT> * parent_, size_t index_)
 			: parent(parent_)
 			, index(index_) {}
 
@@ -1042,11 +1042,7 @@ template <typename TokenT> class IterativeScannedTokens final {
 		}
 
 		public: ConstElement operator * () const {
-			return ConstElement(parent->scannedTokens.tokens[index], parent->scannedTokens.startOffsets[index]);
-		}
-
-		public: ConstElement operator -> () const {
-			return ConstElement(parent->scannedTokens.tokens[index], parent->scannedTokens.startOffsets[index]);
+			return ConstElement(parent, index);
 		}
 
 		public: bool operator == (const const_iterator & rhs) const {
@@ -1065,7 +1061,7 @@ template <typename TokenT> class IterativeScannedTokens final {
 		private: IterativeScannedTokens<TokenT> * parent;
 		private: const size_t index;
 
-		public: Element(ScannedTokens<TokenT> * parent_, size_t index_)
+		public: Element(IterativeScannedTokens<TokenT> * parent_, size_t index_)
 			: parent(parent_)
 			, index(index_) {}
 
@@ -1095,7 +1091,7 @@ template <typename TokenT> class IterativeScannedTokens final {
 		private: IterativeScannedTokens<TokenT> * parent;
 		private: size_t index;
 
-		private: explicit iterator(ScannedTokens<TokenT> * parent_, size_t index_)
+		private: explicit iterator(IterativeScannedTokens<TokenT> * parent_, size_t index_)
 			: parent(parent_)
 			, index(index_) {}
 
@@ -1115,19 +1111,11 @@ template <typename TokenT> class IterativeScannedTokens final {
 		}
 
 		public: ConstElement operator * () const {
-			return ConstElement(parent->scannedTokens.tokens[index], parent->scannedTokens.startOffsets[index]);
+			return ConstElement(parent, index);
 		}
 
 		public: Element operator * () {
-			return Element(parent->scannedTokens.tokens[index], parent->scannedTokens.startOffsets[index]);
-		}
-
-		public: ConstElement operator -> () const {
-			return ConstElement(parent->scannedTokens.tokens[index], parent->scannedTokens.startOffsets[index]);
-		}
-
-		public: Element operator -> () {
-			return Element(parent->scannedTokens.tokens[index], parent->scannedTokens.startOffsets[index]);
+			return Element(parent, index);
 		}
 
 		public: bool operator == (const iterator & rhs) const {
-- 
2.43.0


From 2000bef81661764193f9aaf9e809a3438815f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 46/99] fix: an unexpected token was reported twice

---
 src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index d6fb6cd..0a9e1a7 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -637,8 +637,6 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 
 			return true;
 		} else {
-			auto error = errorReport(token, getCurrentCodeSpan(), container.size());
-
 			if (container.size() < maxErrorCount) {
 				container.push_back(errorReport(token, getCurrentCodeSpan(), container.size()));
 			}
-- 
2.43.0


From 57c01a15520a452fcba68033fc118fef325b777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 47/99] fix: normalising text that is not UTF-8 wrote past the
 end of the output

---
 .../cpp/Balau/Lang/Property/Lang/PropertyAst.hpp     | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index ac9892a..3927e1e 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -98,12 +98,14 @@ class PropertyNode { // Abstract
 	///
 	public: static std::string normalise(std::string_view input) {
 		// The output string will be at most the same length as the input string.
-		std::string output = std::string(input);
+		std::string output;
+		output.reserve(input.length());
 		int inOffset = 0;
-		int outOffset = 0;
+		int startOffset;
 		char32_t c;
 
 		while (inOffset < (int) input.length()) {
+			startOffset = inOffset;
 			c = Character::getNextUtf8Safe(input, inOffset);
 
 			if (c == U'\\') {
@@ -111,6 +113,7 @@ class PropertyNode { // Abstract
 					break; // Last character is a backslash.
 				}
 
+				startOffset = inOffset;
 				c = Character::getNextUtf8Safe(input, inOffset);
 
 				switch (c) {
@@ -121,17 +124,16 @@ class PropertyNode { // Abstract
 					}
 
 					default: {
-						Character::setUtf8AndAdvanceOffset(output, outOffset, c);
+						output.append(input.substr((size_t) startOffset, (size_t) (inOffset - startOffset)));
 						break;
 					}
 				}
 
 			} else {
-				Character::setUtf8AndAdvanceOffset(output, outOffset, c);
+				output.append(input.substr((size_t) startOffset, (size_t) (inOffset - startOffset)));
 			}
 		}
 
-		output.erase((size_t) outOffset);
 		return output;
 	}
 
-- 
2.43.0


From 97914f91c25d931b8bd89957df386e3912794dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 48/99] fix: appending a path component to a URL dropped the
 user information and port

---
 src/main/cpp/Balau/Resource/Url.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/Url.hpp b/src/main/cpp/Balau/Resource/Url.hpp
index d9b0da6..b12e849 100644
--- a/src/main/cpp/Balau/Resource/Url.hpp
+++ b/src/main/cpp/Balau/Resource/Url.hpp
@@ -73,9 +73,12 @@ class Url : public Uri {
 		const UriComponents components(uri);
 		// TODO normalise path.
 
-		std::string url = ::toString(
-			components.scheme(), "://", components.host(), components.path(), "/", pathComponent
-		);
+		// The scheme and authority.
+		std::string url = uri.substr(0, uri.length() - components.pathQueryFragment().length());
+
+		url += components.path();
+		url += "/";
+		url += pathComponent;
 
 		if (components.hasQuery()) {
 			url += "?";
-- 
2.43.0


From 90f258b98b9abcea3f07500629309a9e98711a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 49/99] fix: resolving a path against a URL dropped the user
 information and port and did not use the base path

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 46 +++++++++++-----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 1b62191..bec6ffe 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -60,6 +60,26 @@ class UriResolve {
 	public: static std::unique_ptr<Uri> resolve(const ZipEntry & zipEntry, std::string_view path);
 	public: static std::unique_ptr<Uri> resolve(const ZipFile & zipFile, std::string_view path);
 
+	// Resolve the relative or absolute path, in reference to the URL.
+	private: static std::string resolveUrl(const Url & url, const std::string & path) {
+		const UriComponents components(url);
+		const std::string uri = url.toUriString();
+
+		// The scheme and authority.
+		const std::string root = uri.substr(0, uri.length() - components.pathQueryFragment().length());
+
+		if (Util::Strings::startsWith(path, "/")) {
+			// Absolute path.
+			return root + path;
+		} else {
+			// Relative path.
+			// TODO normalise path.
+			const std::string_view base = components.path();
+			const size_t lastSlash = base.rfind('/');
+			return root + (lastSlash == std::string_view::npos ? "/" : std::string(base.substr(0, lastSlash + 1))) + path;
+		}
+	}
+
 	private: struct UriResolveVisitor : public UriVisitor {
 		std::string_view path;
 		std::unique_ptr<Uri> resultUri;
@@ -182,18 +202,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Http & http, std::string_v
 		return uri;
 	}
 
-	const UriComponents components(http);
-
-	if (Util::Strings::startsWith(str, "/")) {
-		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
-		return std::unique_ptr<Uri>(new Http(url));
-	} else {
-		// Relative path.
-		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
-		return std::unique_ptr<Uri>(new Http(url));
-	}
+	return std::unique_ptr<Uri>(new Http(resolveUrl(http, str)));
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string_view path) {
@@ -208,18 +217,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string
 		return uri;
 	}
 
-	const UriComponents components(https);
-
-	if (Util::Strings::startsWith(str, "/")) {
-		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
-		return std::unique_ptr<Uri>(new Https(url));
-	} else {
-		// Relative path.
-		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
-		return std::unique_ptr<Uri>(new Https(url));
-	}
+	return std::unique_ptr<Uri>(new Https(resolveUrl(https, str)));
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const StringUri & stringUri, std::string_view path) {
-- 
2.43.0


From 2d88e9b931b0fddcc5564968dee415da20fc115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 50/99] fix: the getUnique calls with a default could not be
 compiled

---
 src/main/cpp/Balau/Application/Injector.hpp | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 65f02a7..d475a76 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -450,7 +450,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", std::move(defaultValue));
 	}
 
@@ -483,7 +483,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", defaultValueSupplier);
 	}
 
@@ -500,7 +500,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get(name, defaultValueSupplier);
 	}
 
@@ -767,8 +767,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -800,8 +800,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -833,8 +833,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -866,8 +866,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -1311,7 +1311,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
@@ -1326,7 +1326,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::function<std::unique_ptr<BaseT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
-- 
2.43.0


From 6e5e2aedc5cc13c3624fd8e75f4240835784a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 51/99] fix: promoting to a const binding only used the root
 injector and could not be compiled with a default

---
 src/main/cpp/Balau/Application/Injector.hpp | 103 +++++++++++++-------
 1 file changed, 67 insertions(+), 36 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index d475a76..417ec9e 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1022,7 +1022,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1055,7 +1055,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1088,7 +1088,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1121,7 +1121,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1154,7 +1154,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1187,7 +1187,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1259,6 +1259,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	T & getReferenceImpl(std::string_view name) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>), name);
 
+		if constexpr (std::is_const<T>::value) {
+			// The whole hierarchy is checked for a const binding before being checked for a non-const one.
+			if (!hasBinding(keyView)) {
+				return getReferenceImpl<typename std::remove_const<T>::type>(name);
+			}
+		}
+
 		const auto * binding = bindings->find(keyView);
 
 		if (binding != nullptr) {
@@ -1266,12 +1273,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		} else if (parent) {
 			return parent->getReferenceImpl<T>(name);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name);
-			} else {
-				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
-			}
+			ThrowBalauException(Exception::NoBindingException, keyView.toKey());
 		}
 	}
 
@@ -1279,6 +1281,20 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	T & getReferenceImpl(std::string_view name, T & defaultValue) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>), name);
 
+		if constexpr (std::is_const<T>::value) {
+			// The whole hierarchy is checked for a const binding before being checked for a non-const one.
+			if (!hasBinding(keyView)) {
+				using NonConstT = typename std::remove_const<T>::type;
+				const Impl::BindingKeyView nonConstKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, NonConstT>), name);
+
+				if (!hasBinding(nonConstKeyView)) {
+					return defaultValue;
+				}
+
+				return getReferenceImpl<NonConstT>(name);
+			}
+		}
+
 		const auto * binding = bindings->find(keyView);
 
 		if (binding != nullptr) {
@@ -1286,12 +1302,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		} else if (parent) {
 			return parent->getReferenceImpl<T>(name, defaultValue);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
-			}
+			return defaultValue;
 		}
 	}
 
@@ -1345,6 +1356,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const auto typeIndex = std::type_index(typeid(BaseT));
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
 
+		if constexpr (std::is_const<BaseT>::value) {
+			// The whole hierarchy is checked for a const binding before being checked for a non-const one.
+			if (!hasBinding(keyView)) {
+				return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
+			}
+		}
+
 		const auto * binding = bindings->find(keyView);
 
 		if (binding != nullptr) {
@@ -1356,12 +1374,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
-			} else {
-				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
-			}
+			ThrowBalauException(Exception::NoBindingException, keyView.toKey());
 		}
 	}
 
@@ -1370,6 +1383,20 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const auto typeIndex = std::type_index(typeid(BaseT));
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
 
+		if constexpr (std::is_const<BaseT>::value) {
+			// The whole hierarchy is checked for a const binding before being checked for a non-const one.
+			if (!hasBinding(keyView)) {
+				using NonConstT = typename std::remove_const<BaseT>::type;
+				const Impl::BindingKeyView nonConstKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, NonConstT>), name);
+
+				if (typeIndex != std::type_index(typeid(Injector)) && !hasBinding(nonConstKeyView)) {
+					return defaultValue;
+				}
+
+				return getSharedImpl<NonConstT>(name);
+			}
+		}
+
 		const auto * binding = bindings->find(keyView);
 
 		if (binding != nullptr) {
@@ -1381,12 +1408,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name, defaultValue);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
-			}
+			return defaultValue;
 		}
 	}
 
@@ -1395,6 +1417,20 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const auto typeIndex = std::type_index(typeid(BaseT));
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
 
+		if constexpr (std::is_const<BaseT>::value) {
+			// The whole hierarchy is checked for a const binding before being checked for a non-const one.
+			if (!hasBinding(keyView)) {
+				using NonConstT = typename std::remove_const<BaseT>::type;
+				const Impl::BindingKeyView nonConstKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, NonConstT>), name);
+
+				if (typeIndex != std::type_index(typeid(Injector)) && !hasBinding(nonConstKeyView)) {
+					return defaultValueSupplier();
+				}
+
+				return getSharedImpl<NonConstT>(name);
+			}
+		}
+
 		const auto * binding = bindings->find(keyView);
 
 		if (binding != nullptr) {
@@ -1406,12 +1442,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name, defaultValueSupplier);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValueSupplier);
-			} else {
-				return defaultValueSupplier();
-			}
+			return defaultValueSupplier();
 		}
 	}
 
-- 
2.43.0


From 44123faec167e86717215365c29e8abd68c925c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 52/99] fix: unique bindings with a custom deleter could not be
 bound to a provider function

---
 src/main/cpp/Balau/Application/BindingBuilder.hpp | 2 +-
 src/main/cpp/Balau/Application/Impl/Binding.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/BindingBuilder.hpp b/src/main/cpp/Balau/Application/BindingBuilder.hpp
index c5e8661..aaaf886 100644
--- a/src/main/cpp/Balau/Application/BindingBuilder.hpp
+++ b/src/main/cpp/Balau/Application/BindingBuilder.hpp
@@ -50,7 +50,7 @@ using UniquePropertyCloner = std::function<std::unique_ptr<BaseT> (const std::un
 ///
 template <typename BaseT, typename DeleterT>
 class BindingBuilder final : public Impl::BindingBuilderBase {
-	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<BaseT> ()>;
+	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<BaseT, DeleterT> ()>;
 
 	///
 	/// Bind a concrete type.
diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index ff059d7..323e432 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -337,7 +337,7 @@ class InstantiatingUniquePtrBinding final : public AbstractUniquePtrBinding<Base
 
 template <typename BaseT, typename DeleterT>
 class ProvidingFunctionUniquePtrBinding final : public AbstractUniquePtrBinding<BaseT, DeleterT> {
-	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<BaseT> ()>;
+	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<BaseT, DeleterT> ()>;
 
 	private: const UniquePtrProviderFunction provide;
 
-- 
2.43.0


From 520b672cb7231798127e795e23c0d33562ddae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 53/99] fix: bindings and requests for new instances with a
 const type did not match

---
 .../cpp/Balau/Application/BindingBuilder.hpp  | 36 ++++++++++---------
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 15 ++++++--
 src/main/cpp/Balau/Application/Injector.hpp   | 36 ++++++++++---------
 3 files changed, 53 insertions(+), 34 deletions(-)

diff --git a/src/main/cpp/Balau/Application/BindingBuilder.hpp b/src/main/cpp/Balau/Application/BindingBuilder.hpp
index aaaf886..000b3d8 100644
--- a/src/main/cpp/Balau/Application/BindingBuilder.hpp
+++ b/src/main/cpp/Balau/Application/BindingBuilder.hpp
@@ -50,7 +50,11 @@ using UniquePropertyCloner = std::function<std::unique_ptr<BaseT> (const std::un
 ///
 template <typename BaseT, typename DeleterT>
 class BindingBuilder final : public Impl::BindingBuilderBase {
-	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<BaseT, DeleterT> ()>;
+	// New instances are never const.
+	private: using NonConstT = typename std::remove_const<BaseT>::type;
+	private: using NonConstDeleterT = typename Impl::NonConstDeleter<DeleterT>::type;
+
+	private: using UniquePtrProviderFunction = std::function<std::unique_ptr<NonConstT, NonConstDeleterT> ()>;
 
 	///
 	/// Bind a concrete type.
@@ -128,7 +132,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: template <typename DerivedT> void toUnique() {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, NonConstDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new InstantiatingUniquePtrBindingSupplier<DerivedT>());
 	}
@@ -141,7 +145,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: void toUniqueProvider(UniquePtrProviderFunction provider) {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, NonConstDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new ProvidingFunctionUniquePtrBindingSupplier(provider));
 	}
@@ -154,7 +158,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: template <typename ProviderT> void toUniqueProvider() {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, NonConstDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new ProvidingClassUniquePtrBindingSupplier<ProviderT>());
 	}
@@ -169,7 +173,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	public: template <typename ProviderT> void toUniqueProvider(std::shared_ptr<ProviderT> provider) {
 		warnInvalidConstQualifier(Impl::BindingMetaType::Unique);
 		using U = typename std::remove_const<BaseT>::type;
-		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, DeleterT>;
+		using T = Impl::BindingKeyType<Impl::BindingMetaType::Unique, U, NonConstDeleterT>;
 		setKeyType<T>();
 		supplier = std::unique_ptr<BindingSupplier>(new ProvidingClassInstanceUniquePtrBindingSupplier<ProviderT>(std::move(provider)));
 	}
@@ -361,18 +365,18 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 	private: class InstantiatingValueBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
-			return std::unique_ptr<Impl::AbstractBinding>(new Impl::InstantiatingValueBinding<BaseT>(std::move(key)));
+			return std::unique_ptr<Impl::AbstractBinding>(new Impl::InstantiatingValueBinding<NonConstT>(std::move(key)));
 		}
 	};
 
 	private: class PrototypeBindingSupplier : public BindingSupplier {
-		private: const BaseT prototype;
+		private: const NonConstT prototype;
 
-		public: explicit PrototypeBindingSupplier(const BaseT & prototype_)
+		public: explicit PrototypeBindingSupplier(const NonConstT & prototype_)
 			: prototype(prototype_) {}
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
-			return std::unique_ptr<Impl::AbstractBinding>(new Impl::PrototypeBinding<BaseT>(std::move(key), prototype));
+			return std::unique_ptr<Impl::AbstractBinding>(new Impl::PrototypeBinding<NonConstT>(std::move(key), prototype));
 		}
 	};
 
@@ -385,7 +389,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingFunctionValueBinding<BaseT, ProviderFunctionT>(std::move(key), provide)
+				new Impl::ProvidingFunctionValueBinding<NonConstT, ProviderFunctionT>(std::move(key), provide)
 			);
 		}
 	};
@@ -393,7 +397,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	private: template <typename ProviderT> class ProvidingClassValueBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassValueBinding<BaseT, ProviderT>(std::move(key))
+				new Impl::ProvidingClassValueBinding<NonConstT, ProviderT>(std::move(key))
 			);
 		}
 	};
@@ -404,7 +408,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassInstanceValueBinding<BaseT, ProviderT>(std::move(key), provider)
+				new Impl::ProvidingClassInstanceValueBinding<NonConstT, ProviderT>(std::move(key), provider)
 			);
 		}
 
@@ -427,7 +431,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	private: template <typename DerivedT> class InstantiatingUniquePtrBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::InstantiatingUniquePtrBinding<BaseT, DerivedT, DeleterT>(std::move(key))
+				new Impl::InstantiatingUniquePtrBinding<NonConstT, DerivedT, NonConstDeleterT>(std::move(key))
 			);
 		}
 	};
@@ -440,7 +444,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingFunctionUniquePtrBinding<BaseT, DeleterT>(std::move(key), provide)
+				new Impl::ProvidingFunctionUniquePtrBinding<NonConstT, NonConstDeleterT>(std::move(key), provide)
 			);
 		}
 	};
@@ -448,7 +452,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 	private: template <typename ProviderT> class ProvidingClassUniquePtrBindingSupplier : public BindingSupplier {
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassUniquePtrBinding<BaseT, ProviderT, DeleterT>(std::move(key))
+				new Impl::ProvidingClassUniquePtrBinding<NonConstT, ProviderT, NonConstDeleterT>(std::move(key))
 			);
 		}
 	};
@@ -459,7 +463,7 @@ class BindingBuilder final : public Impl::BindingBuilderBase {
 
 		public: std::unique_ptr<Impl::AbstractBinding> build(Impl::BindingKey && key) const override {
 			return std::unique_ptr<Impl::AbstractBinding>(
-				new Impl::ProvidingClassInstanceUniquePtrBinding<BaseT, ProviderT, DeleterT>(std::move(key), provider)
+				new Impl::ProvidingClassInstanceUniquePtrBinding<NonConstT, ProviderT, NonConstDeleterT>(std::move(key), provider)
 			);
 		}
 
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 75c5ea2..3a3d53c 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -266,6 +266,17 @@ inline bool operator != (const BindingKey & lhs, const BindingKey & rhs) {
 ///////////////////////////////////////////////////////////////////////////////
 
 // Create a "Value" binding key.
+//
+// The deleter type of unique bindings, which are never const.
+//
+template <typename DeleterT> struct NonConstDeleter {
+	using type = DeleterT;
+};
+
+template <typename T> struct NonConstDeleter<std::default_delete<const T>> {
+	using type = std::default_delete<T>;
+};
+
 template <typename T> struct CreateBindingKey {
 	Impl::BindingKey operator () (std::string name) const {
 		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Value, T>), std::move(name));
@@ -296,14 +307,14 @@ template <typename T, typename DeleterT> struct CreateBindingKey<const std::uniq
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename NonConstDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<const std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename NonConstDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 417ec9e..266c704 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -829,16 +829,18 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using NonConstDeleterT = typename Impl::NonConstDeleter<DeleterT>::type;
+
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, NonConstDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, std::unique_ptr<const BaseT, DeleterT> && defaultValue) const {
+			return hasBinding(name) ? get(name) : std::move(defaultValue);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<const BaseT, DeleterT> ()> & defaultValueSupplier) const {
+			return hasBinding(name) ? get(name) : defaultValueSupplier();
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -846,11 +848,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, NonConstDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, NonConstDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
@@ -862,16 +864,18 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<const std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using NonConstDeleterT = typename Impl::NonConstDeleter<DeleterT>::type;
+
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, NonConstDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, std::unique_ptr<const BaseT, DeleterT> && defaultValue) const {
+			return hasBinding(name) ? get(name) : std::move(defaultValue);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<const BaseT, DeleterT> ()> & defaultValueSupplier) const {
+			return hasBinding(name) ? get(name) : defaultValueSupplier();
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -879,11 +883,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, NonConstDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, NonConstDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
-- 
2.43.0


From cfb54267bf7be1445deac895b2c7c508563bcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 54/99] fix: static singletons registered in an application
 configuration were never set

---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 4 +++-
 src/main/cpp/Balau/Application/Injector.hpp                 | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ff5de47..6e93749 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -99,7 +99,9 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	/// @param name an optional binding name
 	///
 	protected: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		staticSingletonPostConstructionCalls.emplace_back(new StaticSingletonRegistration<T>(ptrPtr, name));
+		postConstructionCalls.push_back(
+			[ptrPtr, name = std::string(name)] (const auto & injector) { *ptrPtr = injector.template getShared<T>(name); }
+		);
 		preDestructionCalls.push_back([ptrPtr] () { ptrPtr->reset(); });
 	}
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 266c704..2e50579 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -126,7 +126,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @param name an optional binding name
 	///
 	public: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		registerPostConstructionCallImpl([ptrPtr, name] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
+		registerPostConstructionCallImpl([ptrPtr, name = std::string(name)] (const Injector & injector) { *ptrPtr = injector.getShared<T>(name); });
 		registerPreDestructionCallImpl([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From 1030574efbe757cbe1f88d6c4c59c17d8bf94aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 55/99] fix: a configuration that was used before registered
 its calls and extra configurations again

---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index 6e93749..9e1de90 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -113,15 +113,15 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	}
 
 	public: std::vector<const InjectorConfiguration *> getExtraConfiguration() const override {
-		return extraConfiguration;
+		return std::exchange(extraConfiguration, {});
 	}
 
 	public: std::list<std::function<void (const Injector& )>> getPostConstructionCalls() const override {
-		return postConstructionCalls;
+		return std::exchange(postConstructionCalls, {});
 	}
 
 	public: std::list<std::function<void ()>> getPreDestructionCalls() const override {
-		return preDestructionCalls;
+		return std::exchange(preDestructionCalls, {});
 	}
 
 	public: std::list<std::unique_ptr<StaticSingletonRegistrationBase>> getStaticSingletonPostConstructionCalls() const override {
-- 
2.43.0


From 8d1a7a53099b45cabf2e0a7aea550fa2d5225479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:06 +0000
Subject: [PATCH 56/99] fix: dependencies satisfied by a parent injector or by
 promotion were reported as missing

---
 .../cpp/Balau/Application/Impl/Binding.hpp    | 31 +++++++--
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 63 ++++++++++++++++---
 src/main/cpp/Balau/Application/Injector.hpp   |  6 +-
 3 files changed, 88 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index 323e432..723a0c9 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -26,6 +26,10 @@
 #include <Balau/Concurrent/ThreadLocalInstance.hpp>
 #include <Balau/Exception/InjectorExceptions.hpp>
 
+#include <algorithm>
+#include <functional>
+#include <vector>
+
 // Avoid false positives.
 #pragma clang diagnostic push
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
@@ -74,7 +78,8 @@ class AbstractBinding {
 	                                   const BindingKey & weakInjectorKey,
 	                                   const BindingKey & constWeakInjectorKey,
 	                                   const BindingKey & sharedInjectorKey,
-	                                   const BindingKey & constSharedInjectorKey) const {
+	                                   const BindingKey & constSharedInjectorKey,
+	                                   const std::function<bool (const BindingKeyView &)> & parentHasBinding) const {
 		const std::vector<BindingKey> dependencyKeys = getDependencyKeys();
 
 		for (const auto & dependencyKey : dependencyKeys) {
@@ -86,9 +91,27 @@ class AbstractBinding {
 				|| dependencyKey == sharedInjectorKey
 				|| dependencyKey == constSharedInjectorKey) {
 				continue; // Special case of injector being injected.
-			} else if (bindingGraph.hasDependency(dependencyKey)) {
-				bindingGraph.addRelationship(dependencyKey, thisKey);
-			} else {
+			}
+
+			std::vector<std::type_index> types { dependencyKey.getType() };
+			types.insert(types.end(), dependencyKey.getPromotions().begin(), dependencyKey.getPromotions().end());
+
+			const bool satisfied = std::any_of(
+				  types.begin()
+				, types.end()
+				, [&] (const std::type_index & type) {
+					const BindingKey candidateKey(type, dependencyKey.getName());
+
+					if (bindingGraph.hasDependency(candidateKey)) {
+						bindingGraph.addRelationship(candidateKey, thisKey);
+						return true;
+					}
+
+					return parentHasBinding(BindingKeyView(candidateKey));
+				}
+			);
+
+			if (!satisfied) {
 				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
 			}
 		}
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 3a3d53c..b02f8fb 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -27,6 +27,7 @@
 #include <string>
 #include <typeindex>
 #include <utility>
+#include <vector>
 
 namespace Balau::Impl {
 
@@ -186,6 +187,21 @@ class BindingKey final {
 		#endif
 	{}
 
+	//
+	// Dependency key constructor.
+	//
+	// The promotions are the types of the bindings that satisfy the dependency
+	// when there is no binding with the key, in order of preference.
+	//
+	public: BindingKey(std::type_index type_, std::string && name_, std::vector<std::type_index> promotions_)
+		: type(type_)
+		  , name(std::move(name_))
+		  , promotions(std::move(promotions_))
+		#ifdef BALAU_DEBUG
+		, typeStr(demangleBindingKeyTypeString(boost::core::demangle(type.name())))
+		#endif
+	{}
+
 	public: explicit BindingKey(std::string && name_)
 		: type(typeid(BindingKey)) // Not set.
 		  , name(std::move(name_))
@@ -216,6 +232,10 @@ class BindingKey final {
 		return name;
 	}
 
+	public: const std::vector<std::type_index> & getPromotions() const {
+		return promotions;
+	}
+
 	public: size_t hashcode() const noexcept {
 		return std::hash<std::type_index>()(type) ^ (41 * std::hash<std::string>()(name));
 	}
@@ -231,6 +251,7 @@ class BindingKey final {
 
 	private: std::type_index type;
 	private: std::string name;
+	private: std::vector<std::type_index> promotions;
 
 	#ifdef BALAU_DEBUG
 	// Displays the demangled binding key type in the debugger.
@@ -328,7 +349,11 @@ template <typename T> struct CreateBindingKey<T &> {
 // Create a const "Reference" binding key.
 template <typename T> struct CreateBindingKey<const T &> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Reference, T>) }
+		);
 	}
 };
 
@@ -349,42 +374,66 @@ template <typename T> struct CreateBindingKey<const std::shared_ptr<T>> {
 // Create a "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a "Shared" weak binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const weak "Shared" binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
 // Create a const weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			  typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>)
+			, std::move(name)
+			, { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) }
+		);
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 2e50579..ba41052 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1706,9 +1706,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const Impl::BindingKey sharedKey(typeid(Impl::BindingKeyType<shared, Injector>), "");
 		const Impl::BindingKey constSharedKey(typeid(Impl::BindingKeyType<shared, const Injector>), "");
 
+		const auto parentHasBinding = [this] (const Impl::BindingKeyView & keyView) {
+			return parent && parent->hasBinding(keyView);
+		};
+
 		// Validate and create the edges of the dependency graph.
 		for (const auto & binding : (*bindings)) {
-			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey);
+			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey, parentHasBinding);
 		}
 
 		std::vector<std::pair<Impl::BindingKey, Impl::BindingKey>> cycleEdges;
-- 
2.43.0


From 0462b23a22610b39de5de904a68878ccdb30c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 57/99] fix: the extra configurations of an extra configuration
 were ignored

---
 src/main/cpp/Balau/Application/Injector.hpp | 22 +++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index ba41052..f6f8520 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1605,11 +1605,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			, conf ...
 		);
 
-		for (const auto & c : extraConfiguration) {
-			Util::Containers::append(builders, c->execute());
-			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
-			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
-		}
+		executeExtraConfiguration(builders, extraConfiguration);
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
@@ -1637,11 +1633,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		for (const auto & c : conf) {
-			for (const auto * c2 : c->getExtraConfiguration()) {
-				Util::Vectors::append(builders, c2->execute());
-				Util::Containers::append(postConstructionCalls, c2->getPostConstructionCalls());
-				Util::Containers::append(preDestructionCalls, c2->getPreDestructionCalls());
-			}
+			executeExtraConfiguration(builders, c->getExtraConfiguration());
 		}
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
@@ -1660,6 +1652,16 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return theBindings;
 	}
 
+	private: void executeExtraConfiguration(std::vector<std::shared_ptr<Impl::BindingBuilderBase>> & builders,
+	                                        const std::vector<const InjectorConfiguration *> & extraConfiguration) {
+		for (const auto * c : extraConfiguration) {
+			Util::Containers::append(builders, c->execute());
+			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
+			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
+			executeExtraConfiguration(builders, c->getExtraConfiguration());
+		}
+	}
+
 	private: void registerPostConstructionCallImpl(const std::function<void (const Injector &)> & call) const {
 		std::lock_guard<std::recursive_mutex> lock(callSync);
 		postConstructionCalls.push_back(call);
-- 
2.43.0


From b51920ed0661f18363f96397a2da4896db89979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 58/99] fix: the calls registered by application configurations
 were lost

---
 src/main/cpp/Balau/Application/Injector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index f6f8520..7f7c3f8 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1776,14 +1776,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return builder.str();
 	}
 
-	// Main injector state.
-	private: const std::shared_ptr<const Injector> parent;
-	private: const std::shared_ptr<const Impl::BindingMap> bindings;
-
-	// Data structures for callbacks.
+	// Data structures for callbacks (must precede the bindings, the creation of which registers callbacks).
 	private: mutable std::list<std::function<void (const Injector& )>> postConstructionCalls;
 	private: mutable std::list<std::function<void ()>> preDestructionCalls;
 	private: mutable std::recursive_mutex callSync;
+
+	// Main injector state.
+	private: const std::shared_ptr<const Injector> parent;
+	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 };
 
 } // namespace Balau
-- 
2.43.0


From ee6e14f6fc9c3c7c219ebd8143f88423c6fdb992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 59/99] fix: MovableOnScopeExit could not be instantiated

---
 src/main/cpp/Balau/Type/MovableOnScopeExit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
index a7d8f85..5d86ac9 100644
--- a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
@@ -96,13 +96,17 @@ class MovableOnScopeExit final {
 			function = [] () {};
 		}
 
+		public: void reset(std::function<void ()> function_) override {
+			function = std::move(function_);
+		}
+
 		public: void executeNow() override {
 			function();
 			clear();
 		}
 
 		friend class MovableOnScopeExit;
-		private: FunctionT function;
+		private: std::function<void ()> function;
 	};
 
 	private: std::unique_ptr<ContainerBase> exiter;
-- 
2.43.0


From ab507f9fa005364c9345f854447e2b3acf63f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 60/99] fix: the end case of makeUniqueV returned shared
 pointers

---
 src/main/cpp/Balau/Util/Memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Memory.hpp b/src/main/cpp/Balau/Util/Memory.hpp
index 65c07b5..a32d11b 100644
--- a/src/main/cpp/Balau/Util/Memory.hpp
+++ b/src/main/cpp/Balau/Util/Memory.hpp
@@ -111,8 +111,8 @@ struct Memory final {
 	/// @tparam R the return type of which the vector will hold shared pointers
 	///
 	template <typename T, typename R = T, typename F>
-	static std::vector<std::shared_ptr<R>> makeUniqueV(F ) {
-		return std::vector<std::shared_ptr<R>>();
+	static std::vector<std::unique_ptr<R>> makeUniqueV(F ) {
+		return std::vector<std::unique_ptr<R>>();
 	}
 
 	////////////////// Make shared - scalar transform version /////////////////
-- 
2.43.0


From f826b6c56c4060bf0015036783fad91031aea5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 61/99] fix: printHexBytes never returned when no group size
 was given

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 7e0c408..1ab634e 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -204,6 +204,12 @@ struct PrettyPrint final {
 	///
 	static std::string printHexBytes(const char * ptr, size_t byteCount, size_t lineLength = 0, size_t groupSize = 0) {
 		std::ostringstream builder;
+
+		if (groupSize == 0) {
+			// No groups: each line is a single run of bytes.
+			groupSize = lineLength / 2;
+		}
+
 		const size_t groupsPerLine = calculateGroupsPerLine(lineLength, groupSize);
 
 		if (groupsPerLine == 0) {
@@ -258,7 +264,7 @@ struct PrettyPrint final {
 	private: static size_t calculateGroupsPerLine(size_t lineLength, size_t groupSize) {
 		const size_t groupCharCount = groupSize * 2;
 
-		if (groupCharCount > lineLength) {
+		if (groupCharCount == 0 || groupCharCount > lineLength) {
 			return 0;
 		}
 
-- 
2.43.0


From 3e876c8000b5efc614b5d3962e07afe12e976ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 62/99] fix: printHexBytes printed the bytes from 80 upwards as
 eight digits

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 1ab634e..d572e09 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -216,7 +216,7 @@ struct PrettyPrint final {
 			// Return single line.
 
 			for (size_t m = 0; m < byteCount; m++) {
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[m];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[m];
 			}
 
 			return builder.str();
@@ -233,7 +233,7 @@ struct PrettyPrint final {
 						return builder.str();
 					}
 
-					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 				}
 
 				builder << " ";
@@ -244,7 +244,7 @@ struct PrettyPrint final {
 					return builder.str();
 				}
 
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 			}
 
 			builder << "\n";
-- 
2.43.0


From 803801cbb222ae4bba2f8ccbc545790cb885a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 63/99] fix: the containment of a string in a container of
 strings could not be queried

---
 src/main/cpp/Balau/Util/Containers.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Containers.hpp b/src/main/cpp/Balau/Util/Containers.hpp
index ab056fe..bd9e10e 100644
--- a/src/main/cpp/Balau/Util/Containers.hpp
+++ b/src/main/cpp/Balau/Util/Containers.hpp
@@ -88,7 +88,13 @@ struct Containers final {
 	///
 	/// Does the container contain one of the supplied values?
 	///
-	template <template <typename ...> class C, typename ... T, template <typename ...> class V, typename ... U>
+	template <
+		  template <typename ...> class C
+		, typename ... T
+		, template <typename ...> class V
+		, typename ... U
+		, typename = std::enable_if_t<!std::is_same<typename C<T ...>::value_type, V<U ...>>::value>
+	>
 	static bool contains(const C<T ...> & container, const V<U ...> & values) {
 		for (const auto & value : values) {
 			if (std::find(container.begin(), container.end(), value) != container.end()) {
-- 
2.43.0


From 1b0c0a1b9a8e6c1c2e676b9e899fe48627551f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:57 +0000
Subject: [PATCH 64/99] fix: log messages with missing parameters read past the
 end of the parameters

---
 src/main/cpp/Balau/Logging/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 98eac46..10e6c50 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -282,13 +282,14 @@ void Logger::logMessage(const SourceCodeLocation & location,
 	auto timePoint = System::SystemClock().now();
 	auto messageItems = textToMessageItems(message, parameterCount);
 	LoggerOStringStream messageTextStream;
+	LoggerStringVector replacementParameters;
 	const LoggerStringVector * finalParameters;
 
 	if (parameters.size() < parameterCount) {
 		// The logging message does not have enough parameters.
-		LoggerStringVector replacementParameters = parameters;
+		replacementParameters = parameters;
 
-		while (parameterCount < parameters.size()) {
+		while (replacementParameters.size() < parameterCount) {
 			replacementParameters.emplace_back("????");
 		}
 
-- 
2.43.0


From 3363e97537e57a20a47576011da8eaca7e55919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:57 +0000
Subject: [PATCH 65/99] fix: a log message was cut at its first NUL when it had
 parameters

---
 src/main/cpp/Balau/Logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 10e6c50..2e013dc 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -313,7 +313,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
 		, logger.ns
 		, level
 		, location.location
-		, messageText.c_str()
+		, messageText
 		, timePoint
 	);
 
-- 
2.43.0


From 2d180160d50acb3bdc75a4272dcfe69259a9c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:57 +0000
Subject: [PATCH 66/99] fix: the log file path specifier without a location
 lost the rest of the line

---
 src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
index 15396ac..d21dfdd 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
@@ -203,7 +203,9 @@ class FilenameLoggerItem : public LogItem {
 // The full path of the file in which the log message is found.
 class FilePathLoggerItem : public LogItem {
 	public: void write(LoggerItemParameters & parameters) const override {
-		parameters.builder << parameters.location;
+		if (parameters.location != nullptr) {
+			parameters.builder << parameters.location;
+		}
 	}
 };
 
-- 
2.43.0


From 442aab525c015cff73a647164385001ebc5d34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:57 +0000
Subject: [PATCH 67/99] fix: loggers with their own stream options inherited
 those of their ancestors

---
 .../cpp/Balau/Logging/Impl/LoggingState.cpp   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 1153364..55a271d 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -662,16 +662,18 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 			Logger & parentLogger = *parent->value.getLogger();
 			auto & parentProps = parentLogger.properties;
 
+			// Special treatment is required for stream properties.
+			// Do not propagate the parent's stream properties if
+			// there is a single stream property in the child.
+			const bool hasStream = std::any_of(
+				  loggerProps.begin()
+				, loggerProps.end()
+				, [&streamStr] (const auto & p) { return Strings::endsWith(p.first, streamStr); }
+			);
+
 			for (auto & parentProp : parentProps) {
-				if (Strings::endsWith(parentProp.first, streamStr)) {
-					// Special treatment is required for stream properties.
-					// Do not propagate the parent's stream properties if
-					// there is a single stream property in the child.
-					for (auto & loggerProp : loggerProps) {
-						if (Strings::endsWith(loggerProp.first, streamStr)) {
-							continue;
-						}
-					}
+				if (hasStream && Strings::endsWith(parentProp.first, streamStr)) {
+					continue;
 				}
 
 				if (loggerProps.find(parentProp.first) == loggerProps.end()) {
-- 
2.43.0


From 01f01512f0f8b6bf5564f7334d0f400b32d32cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 68/99] fix: a log placeholder after an opening brace was not
 replaced

---
 src/main/cpp/Balau/Logging/Logger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 2e013dc..6d2fc3b 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -149,7 +149,9 @@ std::vector<std::unique_ptr<MessageItem>> textToMessageItems(std::string_view me
 				textStart += 2;
 				textEnd = textStart;
 			} else {
-				textEnd += 2;
+				// A lone opening brace: the next character may start a placeholder.
+				++textEnd;
+				continue;
 			}
 		} else {
 			++textEnd;
-- 
2.43.0


From dff79869312edcfb9d1e2cb565e006e1a24bc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 69/99] fix: the stream of a logger was read without acquiring
 what its configuration wrote

---
 src/main/cpp/Balau/Logging/Logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 6d2fc3b..4ff6549 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -236,7 +236,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         std::string_view message) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
@@ -274,7 +274,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         const LoggerStringVector & parameters) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
-- 
2.43.0


From 9ca19c1a8515369d380197c0f8fe9ae48045a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 70/99] fix: the type specifications text of an environment
 configuration was ignored

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 8d8f0bc..48f8c9e 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -244,7 +244,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	public: EnvironmentConfiguration(const std::string & input, const std::string & typeSpecifications_)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)) }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)))) {}
+		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(typeSpecifications_)))) {}
 
 	///
 	/// Create an environment configuration by specifying the source properties file.
-- 
2.43.0


From 29d6281bd95b24fab5293563010f22ffa4093f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 71/99] fix: unique environment properties could not have
 default values

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 6 ++----
 src/main/cpp/Balau/Application/EnvironmentProperties.hpp    | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 48f8c9e..12e25b7 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -372,10 +372,8 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	protected: template <typename BaseT>
 	Impl::PropertyBindingBuilderFactoryPtr unique(std::string name, std::unique_ptr<BaseT> && defaultValue) const {
-		Impl::PropertyBindingBuilderFactoryPtr factory = Impl::getBindingBuilderFactory(typeid(BaseT), name, "");
-		auto f = factory->clone(name, defaultValue);
-		allBindingBuilderFactories.emplace_back(f);
-		return f;
+		auto cloner = Impl::UniquePropertyBindingBuilderFactory<BaseT>::getClonerFunction(name);
+		return unique<BaseT>(std::move(name), cloner, std::move(defaultValue));
 	}
 
 	///
diff --git a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
index 44a62b8..7f35ee8 100644
--- a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
@@ -411,7 +411,7 @@ class EnvironmentProperties {
 	///
 	public: template <typename BaseT> std::unique_ptr<BaseT> getUnique(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
 		return getUnique<BaseT>(
-			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), defaultValue
+			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), std::move(defaultValue)
 		);
 	}
 
-- 
2.43.0


From fa0a53aa45336f6259397b01dab8662fcbb6a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 72/99] fix: an environment configuration could not be used a
 second time

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp   | 4 +++-
 .../Balau/Application/Impl/PropertyBindingBuilderFactory.hpp  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 12e25b7..6762507 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -437,8 +437,10 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 			std::vector<Impl::PropertyBindingBuilderFactoryPtr> bindingBuilderFactoriesVector;
 
 			for (auto & factory : allBindingBuilderFactories) {
+				factory->bindingCreated = false;
+
 				if (factory->level == 0) {
-					bindingBuilderFactoriesVector.push_back(std::move(factory));
+					bindingBuilderFactoriesVector.push_back(factory);
 				}
 			}
 
diff --git a/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp b/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
index 4a00945..637d3c0 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
@@ -368,7 +368,7 @@ template <typename BaseT> class UniquePropertyBindingBuilderFactory : public Pro
 	public: std::unique_ptr<Impl::BindingBuilderBase> createDefault() const override {
 		auto ret = std::unique_ptr<Impl::BindingBuilderBase>(new BindingBuilder<BaseT, std::default_delete<BaseT>>(std::string(name)));
 		auto & bindingBuilder = static_cast<BindingBuilder<BaseT, std::default_delete<BaseT>> &>(*ret);
-		auto provider = std::shared_ptr<ClonerProvider>(new ClonerProvider(clonerFunction, std::move(defaultValue)));
+		auto provider = std::shared_ptr<ClonerProvider>(new ClonerProvider(clonerFunction, clonerFunction(defaultValue)));
 		bindingBuilder.toUniqueProvider(provider);
 		bindingCreated = true;
 		return ret;
-- 
2.43.0


From e32689838e2a965b3d70b8d37acc6d8bc870f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 73/99] fix: a property type default containing an equals sign
 was truncated

---
 .../Impl/PropertyTypeSpecificationVisitor.hpp | 57 ++++++-------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 443aa0f..c21a24b 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -27,8 +27,6 @@
 #include <Balau/Lang/Property/Util/PropertyVisitor.hpp>
 #include <Balau/Resource/UriResolve.hpp>
 
-#include <numeric>
-
 namespace Balau {
 
 namespace Impl {
@@ -38,14 +36,6 @@ class PropertyTypeSpecificationVisitorPayload : public Lang::Property::Payload {
 	public: std::vector<Impl::PropertyBindingBuilderFactoryPtr> bindingBuilderFactoriesVector;
 };
 
-template <typename Unused = int> class PropertyTypeSpecificationVisitorUtilities {
-	private: static std::regex defaultValueDelimiter;
-	friend class PropertyTypeSpecificationVisitor;
-};
-
-template <typename Unused>
-std::regex PropertyTypeSpecificationVisitorUtilities<Unused>::defaultValueDelimiter("\\s*=\\s*");
-
 //
 // Used to build the binding builder factories from a type specification property file source.
 //
@@ -77,41 +67,26 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 	public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::ValueProperty & object) {
 		auto & pl = static_cast<PropertyTypeSpecificationVisitorPayload &>(payload);
 
-		auto splitValue = Util::Strings::split(object.getValue(), PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter);
+		// The default value may itself contain '=' characters. It is up to the fromString
+		// function to determine if the text is a value or not.
+		const std::string_view text = object.getValue();
+		const size_t delimiter = text.find('=');
 
 		std::string typeSpecification;
 		std::string defaultValue;
 
-		switch (splitValue.size()) {
-			case 0: {
-				ThrowBalauException(
-					Exception::EnvironmentConfigurationException
-				, ::toString("Missing type specification for property ", object.getName(), " sourced from ", *uris.top(), ".")
-				);
-			}
-
-			case 1: {
-				typeSpecification = std::string(splitValue[0]);
-				break;
-			}
-
-			case 2: {
-				typeSpecification = std::string(splitValue[0]);
-				defaultValue = std::string(splitValue[1]);
-				break;
-			}
-
-			default: {
-				// The multiple default value text contains one or more '='.. combine into a single piece of text.
-				// It is up to the fromString function to determine if the text is value or not.
-				typeSpecification = std::string(splitValue[0]);
-
-				const size_t length = std::accumulate(
-					splitValue.begin(), splitValue.end(), 0U, [] (size_t l, auto & s) { return l + s.length(); }
-				) - splitValue[0].length();
-
-				defaultValue = std::string(splitValue[1].data(), length);
-			}
+		if (delimiter == std::string_view::npos) {
+			typeSpecification = std::string(text);
+		} else {
+			typeSpecification = std::string(Util::Strings::trimRight(text.substr(0, delimiter)));
+			defaultValue = std::string(Util::Strings::trimLeft(text.substr(delimiter + 1)));
+		}
+
+		if (typeSpecification.empty()) {
+			ThrowBalauException(
+				Exception::EnvironmentConfigurationException
+			, ::toString("Missing type specification for property ", object.getName(), " sourced from ", *uris.top(), ".")
+			);
 		}
 
 		auto factory = getBindingBuilderFactory(typeSpecification, std::string(object.getName()), defaultValue);
-- 
2.43.0


From 78ea9f01897abfe2a31fa4ebd77af21becb3f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 74/99] fix: a composite property was processed with the type
 specification of a value

---
 .../Application/Impl/EnvironmentConfigurationBuilder.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index acab863..d666bab 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -257,6 +257,8 @@ class EnvironmentConfigurationBuilder {
 						//		)
 						//	)
 						//);
+
+						factoryNodeIter = bindingBuilderFactoryVector.end();
 					}
 
 					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
@@ -345,6 +347,8 @@ class EnvironmentConfigurationBuilder {
 						//		)
 						//	)
 						//);
+
+						factoryNodeIter = bindingBuilderFactoryVector.end();
 					}
 
 					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
-- 
2.43.0


From a3ca130214c1aef3403961ce1d1d932e7e5c0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 75/99] fix: incompatible root type specifications were cast to
 each other

---
 .../Application/Impl/EnvironmentConfigurationBuilder.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index d666bab..e443186 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -94,6 +94,15 @@ class EnvironmentConfigurationBuilder {
 	//
 	private: static void appendFactories(PropertyBindingBuilderFactoryPtrVector & bindingBuilderFactoryVector,
 	                                     const PropertyBindingBuilderFactoryPtr & factory) {
+		for (const auto & existing : bindingBuilderFactoryVector) {
+			if (existing->name == factory->name && existing->isComposite() != factory->isComposite()) {
+				ThrowBalauException(
+					  Exception::EnvironmentConfigurationException
+					, "Incompatible type specifications found."
+				);
+			}
+		}
+
 		if (!factory->isComposite()) {
 			// Simple factory.
 
-- 
2.43.0


From 9b63646c4a01d7782ecc1a3e522c622caf25ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 76/99] fix: a value supplied for a composite specification was
 reported as a bug

---
 .../Balau/Application/Impl/PropertyBindingBuilderFactory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp b/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
index 637d3c0..83b37e5 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
@@ -177,7 +177,10 @@ class CompositePropertyBindingBuilderFactory : public PropertyBindingBuilderFact
 		: PropertyBindingBuilderFactoryBase(copy) {}
 
 	private: std::unique_ptr<Impl::BindingBuilderBase> create(const std::string & value) const override {
-		ThrowBalauException(Exception::BugException, "CompositePropertyBindingBuilderFactory::create called.");
+		ThrowBalauException(
+			  Exception::EnvironmentConfigurationException
+			, ::toString("A value was supplied for the composite property '", name, "'.")
+		);
 	}
 
 	public: std::unique_ptr<Impl::BindingBuilderBase> createDefault() const override {
-- 
2.43.0


From ac6c0f5075ea6433277fdea57dcb70fe0abff276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 77/99] fix: nested includes of environment properties were
 resolved from the root file

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index 6e206a8..5009985 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -49,7 +49,7 @@ class EnvironmentConfigurationBuilderUtils {
 
 	private: class PropertyTrieCreator : public Lang::Property::PropertyVisitor {
 		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_)
-			: uri(uri_) {}
+			: uris({ uri_ }) {}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::Properties & object) override {
 			for (auto & node : object.getNodes()) {
@@ -75,9 +75,11 @@ class EnvironmentConfigurationBuilderUtils {
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::IncludePropertyNode & object) override {
-			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uri, Util::Strings::trim(object.getText()));
+			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uris.top(), Util::Strings::trim(object.getText()));
 			auto properties = Lang::Property::PropertyParserService::parse(resolvedUri);
+			uris.push(resolvedUri);
 			visit(payload, properties);
+			uris.pop();
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CommentPropertyNode & object) override {
@@ -88,7 +90,7 @@ class EnvironmentConfigurationBuilderUtils {
 			// NOP
 		}
 
-		private: const std::shared_ptr<Resource::Uri> uri;
+		private: std::stack<std::shared_ptr<Resource::Uri>> uris;
 	};
 
 	// Parse the properties sources and create an object trie containing property string objects.
-- 
2.43.0


From aeb0f949ae6678aeb7de6f5492c3c0f666e1d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 78/99] fix: an include in a logging configuration text read an
 empty stack

---
 src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp | 4 +++-
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
index c8d7097..bd2e217 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
@@ -33,9 +33,11 @@ class LoggerPropertyVisitor : private Lang::Property::PropertyVisitor {
 		LoggerTreeNode * currentLoggerTreeNode = nullptr;
 	};
 
-	public: LoggerTree visit(const Lang::Property::AST::Properties & properties) {
+	public: LoggerTree visit(const std::shared_ptr<Resource::Uri> & uri, const Lang::Property::AST::Properties & properties) {
 		LoggerPropertyAstPayload payload;
+		uris.push(uri);
 		visit(payload, properties);
+		uris.pop();
 		return payload.loggerTree;
 	}
 
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 55a271d..a67f3f7 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -909,10 +909,10 @@ void LoggingState::setFormats(LoggerTree & theLoggers) {
 
 LoggerTree LoggingState::parseConfiguration(const std::string & configurationText) {
 	printLoggingDebugMessage("parseConfiguration called with text:\n" + configurationText);
-	Resource::StringUri input(configurationText);
+	std::shared_ptr<Resource::Uri> input(new Resource::StringUri(configurationText));
 	Lang::Property::AST::Properties properties = Lang::Property::PropertyParserService::parse(input);
 	LoggerPropertyVisitor visitor;
-	return visitor.visit(properties);
+	return visitor.visit(input, properties);
 }
 
 LoggerTree LoggingState::parseConfiguration(const std::unique_ptr<EnvironmentProperties> & configuration) {
-- 
2.43.0


From efe1066ed70ee9a3dfe99785e96229abb14b1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:29 +0000
Subject: [PATCH 79/99] fix: vectors could not be populated from named elements

---
 src/main/cpp/Balau/Util/Vectors.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Vectors.hpp b/src/main/cpp/Balau/Util/Vectors.hpp
index 2b7506d..14cc9a4 100644
--- a/src/main/cpp/Balau/Util/Vectors.hpp
+++ b/src/main/cpp/Balau/Util/Vectors.hpp
@@ -45,9 +45,9 @@ struct Vectors final {
 	///
 	/// Given a variadic set of input arguments, call emplace_back on each element.
 	///
-	template <typename T, typename ... PT>
-	static void pushBack(std::vector<T> & vector, T && first, PT && ... remaining) {
-		vector.emplace_back(std::forward<T>(first));
+	template <typename T, typename FirstT, typename ... PT>
+	static void pushBack(std::vector<T> & vector, FirstT && first, PT && ... remaining) {
+		vector.emplace_back(std::forward<FirstT>(first));
 		pushBack(vector, std::forward<PT>(remaining) ...);
 	}
 
@@ -65,8 +65,8 @@ struct Vectors final {
 	/// Given a variadic set of input arguments, call emplace_back on each element.
 	///
 	template <typename T, typename ... PT>
-	static std::vector<T> pushBack(T && first, PT && ... remaining) {
-		std::vector<T> vector;
+	static std::vector<std::decay_t<T>> pushBack(T && first, PT && ... remaining) {
+		std::vector<std::decay_t<T>> vector;
 		vector.emplace_back(std::forward<T>(first));
 		pushBack(vector, std::forward<PT>(remaining) ...);
 		return vector;
-- 
2.43.0


From 0db07e3c4de45cea2c2fe5b3021c09b2a1b61ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 80/99] fix: report the outcome of
 SharedMemoryQueue::tryDequeue in the success argument

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4811e66..63d5f79 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -491,7 +491,9 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned long receivedSize;
 		unsigned int priority;
 
-		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
+		success = tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime);
+
+		if (!success) {
 			return T();
 		}
 
@@ -504,7 +506,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -515,6 +517,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 						);
 
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
@@ -525,7 +528,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -535,6 +538,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
-- 
2.43.0


From 20ff9ef5a67eb7c54039bea4face8fed12bb4bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 81/99] fix: keep the partially received message when
 SharedMemoryQueue::tryDequeue stops a second time

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 63d5f79..d4de65a 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -535,7 +535,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 					                size_t rejected) {
 					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
 						pendingBuffers.emplace_front(
-							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
+							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
 						success = false;
-- 
2.43.0


From 81adeb9f70898e90d8187e6d288cdc33a1da35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 82/99] fix: compute the time limit of
 SharedMemoryQueue::tryEnqueue in universal time

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index d4de65a..d1fac89 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -366,7 +366,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		if (marshalBuffer.size() <= chunkSize) {
 			// The message fits in a single buffer.
-			auto timeout = boost::posix_time::microsec_clock::local_time() + boost::posix_time::millisec(waitTime.count());
+			auto timeout = boost::posix_time::microsec_clock::universal_time() + boost::posix_time::millisec(waitTime.count());
 			return queue.timed_send(marshalBuffer.data(), marshalBuffer.size(), priority, timeout);
 		} else {
 			// Oversize objects cannot be try enqueued, thus an exception is thrown.
-- 
2.43.0


From c081acf3c610d7714840be0e527c155947f30006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 83/99] fix: take account of the pending buffers in
 SharedMemoryQueue::empty

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index d1fac89..f75e208 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -553,7 +553,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	}
 
 	public: bool empty() const override {
-		return queue.get_num_msg() == 0;
+		return pendingBuffers.empty() && queue.get_num_msg() == 0;
 	}
 
 	///
-- 
2.43.0


From 756c2bec839696239b8167f90fdd50b20b3ef254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 84/99] fix: allow a shared memory queue to be opened or
 created with the default buffer size

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index f75e208..4e9e4a9 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -175,7 +175,6 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			  OpenOrCreateSelector()
 			, capacity
 			, calculateDefaultBufferSize()
-			, true
 			, std::move(name_)
 			, throwOnOversize_
 		) {}
-- 
2.43.0


From 8d08e8afba3be5c15667f6c062de048320efbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 85/99] fix: do not read past the end of the message buffer in
 SharedMemoryQueue

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4e9e4a9..1e9fc8f 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -745,7 +745,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	private: T unmarshal(const CharVector & buffer) {
 		// Uncomment the following line for debug output.
 		//std::cerr << toString(getpid(), " -\n", Util::PrettyPrint::printHexBytes(buffer.data(), buffer.size(), 90, 2), "\n");
-		SourceBuffer iStreamBuffer(SourceDevice(buffer.data() + HeaderSize, buffer.size()));
+		SourceBuffer iStreamBuffer(SourceDevice(buffer.data() + HeaderSize, buffer.size() - HeaderSize));
 		boost::archive::binary_iarchive archive(iStreamBuffer);
 		T object;
 		archive >> BoostSerialization(object);
-- 
2.43.0


From 274aa9a4654fed6739ecbc91a4a7aa4667dea719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 86/99] fix: preserve the order of the messages pending in a
 SharedMemoryQueue

---
 .../Balau/Interprocess/SharedMemoryQueue.hpp  | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 1e9fc8f..69f2b26 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -594,8 +594,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		while (true) {
 			if (queueHeader->sequenceNumber != sequenceNumber) { // Never true on the first iteration.
-				++rejectedPendingBuffers;
-				pendingBuffers.emplace_back(PendingBuffer(std::move(queueBuffer), receivedSize, priority));
+				rejectBuffer(queueBuffer, receivedSize, priority, rejectedPendingBuffers);
 				queueBuffer = CharVector(chunkSize);
 			} else {
 				// This can occur out of order (if the chunks arrive out of order).
@@ -653,8 +652,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			auto * queueHeader = (const Impl::QueueHeader *) queueBuffer.data();
 
 			if (sequenceNumber != queueHeader->sequenceNumber) {
-				++rejectedPendingBuffers;
-				pendingBuffers.emplace_back(PendingBuffer(std::move(queueBuffer), receivedSize, priority));
+				rejectBuffer(queueBuffer, receivedSize, priority, rejectedPendingBuffers);
 				queueBuffer = CharVector(chunkSize);
 			} else {
 				// This can occur out of order (if the chunks arrive out of order).
@@ -680,11 +678,11 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                                unsigned int & priority,
 	                                size_t rejectedPendingBuffers) {
 		if (rejectedPendingBuffers < pendingBuffers.size()) {
-			auto pendingBuffer = pendingBuffers.front();
-			buffer = std::move(pendingBuffer.buffer);
-			pendingBuffers.pop_front();
-			receivedSize = pendingBuffer.receivedSize;
-			priority = pendingBuffer.priority;
+			auto iter = pendingBuffers.begin() + rejectedPendingBuffers;
+			receivedSize = iter->receivedSize;
+			priority = iter->priority;
+			buffer = std::move(iter->buffer);
+			pendingBuffers.erase(iter);
 		} else {
 			buffer.resize(chunkSize);
 			queue.receive(buffer.data(), buffer.size(), receivedSize, priority);
@@ -702,11 +700,11 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                                   size_t rejectedPendingBuffers,
 	                                   std::chrono::milliseconds waitTime) {
 		if (rejectedPendingBuffers < pendingBuffers.size()) {
-			auto pendingBuffer = pendingBuffers.front();
-			buffer = std::move(pendingBuffer.buffer);
-			pendingBuffers.pop_front();
-			receivedSize = pendingBuffer.receivedSize;
-			priority = pendingBuffer.priority;
+			auto iter = pendingBuffers.begin() + rejectedPendingBuffers;
+			receivedSize = iter->receivedSize;
+			priority = iter->priority;
+			buffer = std::move(iter->buffer);
+			pendingBuffers.erase(iter);
 			return true;
 		} else {
 			boost::posix_time::ptime timeout(boost::posix_time::microsec_clock::universal_time());
@@ -724,6 +722,18 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		}
 	}
 
+	// Return the buffer of another message to its place in the pending list, preserving the order of reception.
+	private: void rejectBuffer(CharVector & buffer,
+	                           unsigned long receivedSize,
+	                           unsigned int priority,
+	                           size_t & rejectedPendingBuffers) {
+		pendingBuffers.insert(
+			pendingBuffers.begin() + rejectedPendingBuffers, PendingBuffer(std::move(buffer), receivedSize, priority)
+		);
+
+		++rejectedPendingBuffers;
+	}
+
 	private: using SinkDevice   = boost::iostreams::back_insert_device<CharVector>;
 	private: using SinkBuffer   = boost::iostreams::stream_buffer<SinkDevice>;
 	private: using SourceDevice = boost::iostreams::basic_array_source<char>;
-- 
2.43.0


From 9fd962e03d3e64124571dc80cb6da6287ab4b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 87/99] fix: open the existing object in the open or create
 constructor of MSharedMemoryObject

---
 src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index ab0490b..b84be3d 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -108,13 +108,11 @@ template <typename T> class MSharedMemoryObject {
 	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
 		const std::string memoryName = name + "_memory";
 
-		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
-
 		segment = boost::interprocess::managed_shared_memory(
 			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
-		object = segment.construct<T>((name + "_object").c_str())(params ...);
+		object = segment.find_or_construct<T>((name + "_object").c_str())(params ...);
 	}
 
 	///
-- 
2.43.0


From ff27553c37273850f012d39af88decf8e84b6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 88/99] fix: do not lock the mutex of a managed shared memory
 object that is opened read-only

---
 src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index b84be3d..17408b8 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -146,7 +146,7 @@ template <typename T> class MSharedMemoryObject {
 	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_read_only, memoryName.c_str());
-		auto item = segment.find<T>((name + "_object").c_str());
+		auto item = segment.find_no_lock<T>((name + "_object").c_str());
 
 		if (item.first == nullptr) {
 			ThrowBalauException(
-- 
2.43.0


From 1886733cc929b546e901952150354ff7ead592f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 89/99] fix: do not access the segment of a moved or read-only
 MSharedMemoryObject on destruction

---
 src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index 17408b8..d399d66 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -158,12 +158,9 @@ template <typename T> class MSharedMemoryObject {
 	}
 
 	///
-	/// Destroy the shared memory object.
+	/// Destroy the handle of the shared memory object.
 	///
-	public: ~MSharedMemoryObject() {
-		segment.destroy<T>((name + "_memory").c_str());
-		boost::interprocess::shared_memory_object::remove((name + "_object").c_str());
-	}
+	public: ~MSharedMemoryObject() = default;
 
 	///
 	/// Create a shared memory object by moving from a previously created one.
-- 
2.43.0


From 131622733287dcfa770b6d9e1379ce3d5d72811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 90/99] fix: open the existing object in the open or create
 constructor of USharedMemoryObject

---
 .../cpp/Balau/Interprocess/USharedMemoryObject.hpp   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index 1573e67..f4e82d7 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -91,18 +91,16 @@ template <typename T> class USharedMemoryObject {
 	public: template <typename ... P>
 	USharedMemoryObject(boost::interprocess::open_or_create_t, std::string name_, const P & ... params)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
-
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_or_create, name.c_str(), boost::interprocess::read_write
 		);
 
 		boost::interprocess::offset_t size;
 
-		if (shm_obj.get_size(size)) {
-			shm_obj.truncate(sizeof(T));
-			boost::interprocess::mapped_region region(shm_obj, boost::interprocess::read_write);
-			object = new (region.get_address()) T(params ...);
+		if (!sharedMemoryObject.get_size(size) || size == 0) {
+			sharedMemoryObject.truncate(sizeof(T));
+			mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+			object = new (mappedRegion.get_address()) T(params ...);
 		} else {
 			remap();
 		}
-- 
2.43.0


From 2b06e06e9092e1d3cd65f2d7ac01212b408f8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 91/99] fix: map the shared memory that is opened by
 USharedMemoryObject

---
 src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index f4e82d7..87a7596 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -111,7 +111,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object sharedMemoryObject(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_write
 		);
 
@@ -123,7 +123,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_read_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_only
 		);
 
@@ -158,7 +158,7 @@ template <typename T> class USharedMemoryObject {
 	}
 
 	public: void remap() {
-		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, sharedMemoryObject.get_mode());
 		object = (T *) mappedRegion.get_address();
 	}
 
-- 
2.43.0


From ff22a10f0a81abf503eea43746aeedfed14cc87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 92/99] fix: use the buffer size of an existing shared memory
 queue

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 69f2b26..113965f 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -199,7 +199,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                          bool throwOnOversize_ = false)
 		: name(std::move(name_))
 		, queue(openOrCreateQueue(capacity, bufferSize_))
-		, chunkSize(bufferSize_)
+		, chunkSize((unsigned int) queue.get_max_msg_size())
 		, queueState(OpenOrCreateSelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
-- 
2.43.0


From 5bd49b7d8fda14a362c0a940ca7058224eed33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:28 +0000
Subject: [PATCH 93/99] fix: simplify also removes tabs from the start and end
 of the string

---
 src/main/cpp/Balau/Util/Strings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index 1e55c39..5893d3b 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -842,8 +842,8 @@ struct Strings final {
 	///
 	static std::string simplify(const std::string_view & input) {
 		static const std::regex conflater("[\t ]+");
-		auto trimmed = trim(input);
-		return replaceAll(trimmed, conflater, " ");
+		const std::string conflated = replaceAll(input, conflater, " ");
+		return std::string(trim(conflated));
 	}
 
 	///////////////////////////////////
-- 
2.43.0


From 2fd16d1ed62ca97090af0a38495e4b81fbca52ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:48 +0000
Subject: [PATCH 94/99] fix: assigning an iterator over environment properties
 also assigns its owner

---
 src/main/cpp/Balau/Application/EnvironmentProperties.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
index 7f35ee8..b192bee 100644
--- a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
@@ -247,6 +247,7 @@ class EnvironmentProperties {
 		/// Set the current iterator to a copy of the supplied iterator.
 		///
 		public: iterator & operator = (const iterator & copy) {
+			owner = copy.owner;
 			mapIterator = copy.mapIterator;
 			return *this;
 		}
@@ -272,7 +273,7 @@ class EnvironmentProperties {
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: Item operator * () const {
-			return Item(owner, Impl::BindingKeyView(mapIterator->key));
+			return Item(*owner, Impl::BindingKeyView(mapIterator->key));
 		}
 
 		///
@@ -292,10 +293,10 @@ class EnvironmentProperties {
 		friend class EnvironmentProperties;
 
 		private: explicit iterator(const EnvironmentProperties & owner_, Impl::BindingMap::ConstIterator mapIterator_)
-			: owner(owner_)
+			: owner(&owner_)
 			, mapIterator(mapIterator_) {}
 
-		private: const EnvironmentProperties & owner;
+		private: const EnvironmentProperties * owner;
 		private: Impl::BindingMap::ConstIterator mapIterator;
 	};
 
-- 
2.43.0


From 570a32a00e89d53d7c164b4bfca4e55c052f5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:03 +0000
Subject: [PATCH 95/99] fix: startsWith of a vector compares the elements with
 their own equality

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 12fdc07..9c118bb 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -247,7 +247,7 @@ template <typename AE> class MatcherFunction<std::vector<AE>, std::vector<AE>, E
 
 	public: bool matches(const std::vector<AE> & actual, const std::vector<AE> & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual.size() >= expected.size() && std::memcmp(actual.data(), expected.data(), expected.size() * sizeof(AE)) == 0;
+		return actual.size() >= expected.size() && std::equal(expected.begin(), expected.end(), actual.begin());
 	}
 
 	public: EvNotUsed value() { return EvNotUsed(); }
-- 
2.43.0


From dd7c7a51de8c22d9d61a02a5451f1967d61ceea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:03 +0000
Subject: [PATCH 96/99] fix: isAlmostEqual does not wrap for unsigned values

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 9c118bb..c1d0367 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -227,7 +227,11 @@ template <typename A, typename E, typename V> class MatcherFunction<A, E, V, Mat
 
 	public: bool matches(const A & actual, const E & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		if constexpr (std::is_unsigned<A>::value && std::is_unsigned<E>::value && std::is_unsigned<V>::value) {
+			return (actual >= expected ? actual - expected : expected - actual) <= errorDelta;
+		} else {
+			return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		}
 	}
 };
 
-- 
2.43.0


From da0bb635db10441defcff5052f392d907b883695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:03 +0000
Subject: [PATCH 97/99] fix: isNotNull does not refer to a destroyed null
 pointer

---
 src/main/cpp/Balau/Testing/Matchers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Matchers.hpp b/src/main/cpp/Balau/Testing/Matchers.hpp
index 61bfc4c..55493cd 100644
--- a/src/main/cpp/Balau/Testing/Matchers.hpp
+++ b/src/main/cpp/Balau/Testing/Matchers.hpp
@@ -50,7 +50,8 @@ inline ExpectedValue<E, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNot(cons
 /// Is the actual value not equal to the supplied expected value?
 ///
 inline ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNotNull() {
-	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(nullptr);
+	static void * const null = nullptr;
+	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(null);
 }
 
 ///
-- 
2.43.0


From e14f9e120e828f12e8d5d8f8e4d262e44aaec3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:03 +0000
Subject: [PATCH 98/99] fix: rendering an empty value does not read its last
 character

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index f93d541..e643f1e 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -175,8 +175,8 @@ std::string render(const A & actual, const E & expected) {
 		expectedExtra = true;
 	}
 
-	const bool actualEndsWithNewline = actualString.back() == '\n';
-	const bool expectedEndsWithNewline = expectedString.back() == '\n';
+	const bool actualEndsWithNewline = !actualString.empty() && actualString.back() == '\n';
+	const bool expectedEndsWithNewline = !expectedString.empty() && expectedString.back() == '\n';
 
 	if (actualEndsWithNewline && actualExtra) {
 		builder << std::right << std::setw((int) maxLineNumberWidth) << toString(lineCount)
-- 
2.43.0


From 666fe3a3a1ad99c631786f492a329fc21ce1b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:08 +0000
Subject: [PATCH 99/99] fix: a test run without a report generator does not
 dereference it

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index d4fc30e..fdd031c 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -307,7 +307,9 @@ class TestRunnerExecutor {
 							writer << " Group duration (core clock time) = " << durationStr(groupDuration) << "\n";
 
 							// Call the report generator for this completed test group.
-							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							if (reportGenerator) {
+								reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							}
 
 							break;
 						}
-- 
2.43.0

