// The same digests, computed in constant expressions and at run time.
// -DH=<type> -DBLOCK=<bytes> [-DXOF] [-DSINGLE] [-DNOCT: run time only]
#ifndef SINGLE
#include <cthash/cthash.hpp>
#else
#include <cthash-single-header.hpp>
#endif
#include <array>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>

using hasher = cthash::H;
constexpr size_t MAX = 2 * BLOCK + 16;

#ifdef XOF
constexpr size_t D = BLOCK + 9;
constexpr auto last(auto & h) { return h.template final<D * 8>(); }
#else
constexpr auto last(auto & h) { return h.final(); }
constexpr size_t D = decltype(std::declval<hasher &>().final()){}.size();
#endif
using digest = std::array<unsigned char, D>;

// bytes above and below 0x7F at every position
template <class T> constexpr auto message() {
	std::array<T, MAX> r{};
	for (size_t i = 0; i < MAX; ++i) {
		unsigned v = (unsigned)(i * 89 + 0xA5);
		v ^= v >> 3;
		if (i % 5 == 0) v |= 0x80;
		r[i] = static_cast<T>(static_cast<unsigned char>(v));
	}
	return r;
}

template <class T> constexpr digest compute(const T * p, size_t split, size_t n) {
	hasher h{};
	if (split) h.update(std::span<const T>(p, split));
	h.update(std::span<const T>(p + split, n - split));
	auto v = last(h);
	digest r{};
	for (size_t i = 0; i < D; ++i) r[i] = (unsigned char)v[i];
	return r;
}

struct point { size_t split, n; };
constexpr size_t PER = 12;

// every length up to two blocks
constexpr point length(size_t k) { return {0, k < MAX ? k : MAX - 1}; }
// every fill level, with a piece that fills the block exactly, almost, or more
constexpr point pieces(size_t k) {
	size_t f = k / 3 + 1;
	if (f > BLOCK) f = BLOCK;
	return {f, k % 3 == 0 ? f + 1 : k % 3 == 1 ? (f < BLOCK ? BLOCK : BLOCK + 1) : BLOCK + 9};
}
// other element types: lengths and splits around words and blocks
constexpr point few(size_t k) {
	constexpr point t[] = {{0, 1}, {0, 3}, {0, 4}, {0, 7}, {0, 8}, {0, 9}, {0, 31}, {0, BLOCK - 1}, {0, BLOCK}, {0, BLOCK + 3}, {1, 9}, {3, 16}, {4, BLOCK}, {5, BLOCK + 9}, {8, BLOCK + 8}, {BLOCK - 1, BLOCK + 1}, {7, 17}, {BLOCK, BLOCK + 5}};
	return t[k < sizeof(t) / sizeof(*t) ? k : 0];
}

template <class T, auto F, size_t I> struct table {
	static constexpr std::array<digest, PER> value = [] {
		std::array<digest, PER> r{};
#ifndef NOCT
		auto m = message<T>();
		for (size_t k = 0; k < PER; ++k) r[k] = compute<T>(m.data(), F(I * PER + k).split, F(I * PER + k).n);
#endif
		return r;
	}();
};

static long count = 0;
static std::string hex(const digest & d) {
	std::string s;
	char b[4];
	for (unsigned char c: d) { std::snprintf(b, 4, "%02x", c); s += b; }
	return s;
}
template <class T, auto F, size_t I> void check(const char * what) {
#ifndef NOCT
	static volatile unsigned char raw[MAX];
	auto m = message<T>();
	for (size_t i = 0; i < MAX; ++i) { raw[i] = (unsigned char)m[i]; m[i] = static_cast<T>((unsigned char)raw[i]); }
	for (size_t k = 0; k < PER; ++k) {
		volatile size_t s = F(I * PER + k).split, n = F(I * PER + k).n;
		digest r = compute<T>(m.data(), s, n);
		++count;
		if (r != table<T, F, I>::value[k]) {
			std::string x;
			char b[4];
			for (size_t i = 0; i < n; ++i) { std::snprintf(b, 4, "%02x", (unsigned char)raw[i]); x += b; }
			std::printf("FAIL %s of %zu elements of %s, the first %zu in an update of their own; message %s; in a constant expression %s; at run time %s\n", STR, (size_t)n, what, (size_t)s, x.c_str(), hex(table<T, F, I>::value[k]).c_str(), hex(r).c_str());
			std::exit(1);
		}
	}
#endif
}
template <class T, auto F, size_t... Is> void checks(const char * what, std::index_sequence<Is...>) { (check<T, F, Is>(what), ...); }

#ifndef LITERAL
#define LITERAL(T, P) { \
	static constexpr digest c = [] { hasher h{}; h.update(P##"a\x7f""b\xC3\xA9\xff"); auto v = last(h); digest r{}; for (size_t i = 0; i < D; ++i) r[i] = (unsigned char)v[i]; return r; }(); \
	static T text[] = P##"a\x7f""b\xC3\xA9\xff"; \
	digest r = compute<T>((const T *)text, 0, 6); ++count; \
	if (r != c) { std::printf("FAIL %s of the literal %s; in a constant expression %s; at run time %s\n", STR, #P "\"a\\x7f" "b\\xC3\\xA9\\xff\"", hex(c).c_str(), hex(r).c_str()); std::exit(1); } }
#endif

int main() {
#ifndef NOCT
#if PART == 0
	checks<std::byte, length>("std::byte", std::make_index_sequence<(MAX + PER - 1) / PER>());
#elif PART == 1
	checks<std::byte, pieces>("std::byte", std::make_index_sequence<(3 * BLOCK + PER - 1) / PER>());
#else
	using two = std::make_index_sequence<2>;
	checks<unsigned char, few>("unsigned char", two());
	checks<char, few>("char", two());
	checks<signed char, few>("signed char", two());
	checks<char8_t, few>("char8_t", two());
	LITERAL(char, )
	LITERAL(char8_t, u8)
#endif
#else
	for (auto f: {length, pieces, few}) count += compute<std::byte>(message<std::byte>().data(), f(3).split, f(3).n)[0];
	count += compute<char>(message<char>().data(), 0, 3)[0] + compute<unsigned char>(message<unsigned char>().data(), 0, 3)[0] + compute<signed char>(message<signed char>().data(), 0, 3)[0] + compute<char8_t>(message<char8_t>().data(), 0, 3)[0];
#endif
	std::printf("OK %ld\n", count);
}
