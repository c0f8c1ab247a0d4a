From d01348ab94774182cd6287841a35878a6e51bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 1/9] fix: xxhash::update() counted only the low 8 bits of the
 input size

---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/xxhash.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 1691958..0de0e22 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<decltype(length)>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 6a0db64..89ef17c 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<decltype(length)>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
-- 
2.43.0


From 9936cb77e1864740ccb1405d7debbb9a1f23cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 2/9] fix: xxhash32 took the short-input path for messages of 4
 GiB and more

---
 include/cthash-single-header.hpp | 4 ++--
 include/cthash/xxhash.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 0de0e22..da1e13b 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2824,7 +2824,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u}; // total number of bytes, must not wrap even for xxhash32
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -2892,7 +2892,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = static_cast<uint64_t>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 89ef17c..bb7f8e3 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -130,7 +130,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u}; // total number of bytes, must not wrap even for xxhash32
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -200,7 +200,7 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = static_cast<uint64_t>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
-- 
2.43.0


From a40af6819c22e2c1effd1dc629976a1222f0cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 3/9] fix: bytes above 0x7F in signed character types were sign
 extended at compile time

---
 include/cthash-single-header.hpp    | 4 ++--
 include/cthash/internal/convert.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index da1e13b..6558048 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1401,7 +1401,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1417,7 +1417,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index d75ddcc..7839373 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -18,7 +18,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -34,7 +34,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
-- 
2.43.0


From 068a2001c8b05406448c09cb3222fe185f4f6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 4/9] fix: bit buffer shifted by the whole width of its storage
 for 32 and 64 bit items

---
 include/cthash-single-header.hpp       | 11 ++++++++---
 include/cthash/encoding/bit-buffer.hpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 6558048..10f643f 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -171,7 +171,7 @@ template <size_t Bits> using select_bit_integer_t = select_bit_integer<Bits>::ty
 
 template <size_t V> requires(std::popcount(V) == 1u) constexpr auto log2_of_power_of_2 = static_cast<size_t>(std::countr_zero(V));
 
-template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>((static_cast<select_bit_integer_t<Bits>>(1u) << Bits) - 1u);
+template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>(static_cast<select_bit_integer_t<Bits>>(~static_cast<select_bit_integer_t<Bits>>(0u)) >> (sizeof(select_bit_integer_t<Bits>) * 8u - Bits));
 
 template <size_t Capacity> class basic_bit_buffer {
 public:
@@ -184,7 +184,7 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(static_cast<storage_type>(~static_cast<storage_type>(0u)) >> (sizeof(storage_type) * 8u - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
@@ -206,7 +206,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == sizeof(storage_type) * 8u) {
+			// shift by whole width of the storage would be undefined
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3f9dab6..bc0f0ff 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -34,7 +34,7 @@ template <size_t Bits> using select_bit_integer_t = select_bit_integer<Bits>::ty
 
 template <size_t V> requires(std::popcount(V) == 1u) constexpr auto log2_of_power_of_2 = static_cast<size_t>(std::countr_zero(V));
 
-template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>((static_cast<select_bit_integer_t<Bits>>(1u) << Bits) - 1u);
+template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>(static_cast<select_bit_integer_t<Bits>>(~static_cast<select_bit_integer_t<Bits>>(0u)) >> (sizeof(select_bit_integer_t<Bits>) * 8u - Bits));
 
 template <size_t Capacity> class basic_bit_buffer {
 public:
@@ -47,7 +47,7 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(static_cast<storage_type>(~static_cast<storage_type>(0u)) >> (sizeof(storage_type) * 8u - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
@@ -69,7 +69,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits == sizeof(storage_type) * 8u) {
+			// shift by whole width of the storage would be undefined
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-- 
2.43.0


From e053780f06aa9b5462ef0f27efb281d503d8bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 5/9] fix: format specification longer than the longest
 encoding name was silently truncated

---
 include/cthash-single-header.hpp      | 4 ++--
 include/cthash/encoding/encodings.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 10f643f..09fd691 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -766,8 +766,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more character, so name which is too long is never equal to known one)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 37508da..561b325 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -173,8 +173,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more character, so name which is too long is never equal to known one)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
-- 
2.43.0


From a4e800936f42e57e9ff26c566620069cf8d9a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 6/9] fix: wide characters of a format specification are not
 truncated before comparison

---
 include/cthash/encoding/encodings.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 561b325..e4e3eb4 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -182,14 +182,16 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// wide character which doesn't fit into char is not part of any known name
+			const char narrow = static_cast<char>(c);
+			*out++ = (static_cast<std::remove_const_t<decltype(c)>>(narrow) == c) ? narrow : '\0';
 		}
 
 		++it;
-- 
2.43.0


From cae442c5d87e0ec417e07f550baa7b98814a40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 7/9] fix: update() left out the last byte of built-in arrays
 of unsigned char, signed char and std::byte

---
 include/cthash-single-header.hpp     | 17 ++++++++++++++++-
 include/cthash/internal/concepts.hpp |  5 ++++-
 include/cthash/xxhash.hpp            | 12 ++++++++++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 09fd691..77efbe8 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1370,7 +1370,10 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+// only these come with a terminating zero, arrays of other byte types are just data
+template <typename T> concept literal_char = std::same_as<T, char> || std::same_as<T, char8_t>;
+
+template <literal_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
@@ -2896,6 +2899,12 @@ template <size_t Bits> struct xxhash {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N>
+	requires(!string_literal<Byte[N]>)
+	[[gnu::flatten]] constexpr xxhash & update(const Byte (&input)[N]) noexcept {
+		return update(std::span<const Byte>(input));
+	}
+
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
 		length = static_cast<uint64_t>(input.size());
 		process_blocks(input);
@@ -2912,6 +2921,12 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N>
+	requires(!string_literal<Byte[N]>)
+	[[gnu::flatten]] constexpr auto update_and_final(const Byte (&input)[N]) noexcept {
+		return update_and_final(std::span<const Byte>(input));
+	}
+
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
 		// step 1 shortcut for short input
 		if (length < buffer.size()) {
diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index c653670..25d5e7f 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -9,7 +9,10 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+// only these come with a terminating zero, arrays of other byte types are just data
+template <typename T> concept literal_char = std::same_as<T, char> || std::same_as<T, char8_t>;
+
+template <literal_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index bb7f8e3..0d1cc1c 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -197,6 +197,12 @@ template <size_t Bits> struct xxhash {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N>
+	requires(!string_literal<Byte[N]>)
+	[[gnu::flatten]] constexpr xxhash & update(const Byte (&input)[N]) noexcept {
+		return update(std::span<const Byte>(input));
+	}
+
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
@@ -215,6 +221,12 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N>
+	requires(!string_literal<Byte[N]>)
+	[[gnu::flatten]] constexpr auto update_and_final(const Byte (&input)[N]) noexcept {
+		return update_and_final(std::span<const Byte>(input));
+	}
+
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
 		// step 1 shortcut for short input
 		if (length < buffer.size()) {
-- 
2.43.0


From dd33cb473286facb9746210c0c5aa049c8f5d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:10 +0000
Subject: [PATCH 8/9] fix: single header used uint8_t without including
 <cstdint>

---
 include/cthash-single-header.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 77efbe8..8737739 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -116,6 +116,7 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 
 #include <ranges>
 #include <concepts>
+#include <cstdint>
 
 namespace cthash {
 
-- 
2.43.0


From 340742cb6bcaefd14a5e98b9a7cdc7fc14eb0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 9/9] fix: checksum crashed on directories and other files
 which can't be mapped

---
 checksum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/checksum.cpp b/checksum.cpp
index eab5903..8f59818 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -54,6 +54,12 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	// an empty file can't be mapped, and there is nothing to read from it
+	if (f.ptr == MAP_FAILED && f.sz != 0u) {
+		std::cerr << "can't read file!\n";
+		return 1;
+	}
+
 	const auto start = std::chrono::high_resolution_clock::now();
 
 	if (h == "sha-224") {
-- 
2.43.0

