// usage: carrier_driver <all|long|history fill n> <seed>     (-DH=<type> -DBLOCK=n -DW=0|32|64 [-DXOF])
// the same bytes in every carrier against a span of std::byte
#ifndef SINGLE
#include <cthash/cthash.hpp>
#else
#include <cthash-single-header.hpp>
#endif
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/mman.h>

using Hasher = cthash::H;
using bytes = std::vector<unsigned char>;
static unsigned long long seed = 1, count = 0;

static bytes digest(Hasher h) {
#ifdef XOF
	auto v = h.final<256>();
#else
	auto v = h.final();
#endif
	auto * p = (const unsigned char *)v.data();
	return bytes(p, p + v.size());
}
static std::string hex(const bytes & b) {
	std::string s;
	char t[4];
	for (auto x: b) { snprintf(t, sizeof t, "%02x", x); s += t; }
	return s;
}
static unsigned char at(size_t i) {
	unsigned long long x = (i + 1) * 0x9e3779b97f4a7c15ull + seed * 0xbf58476d1ce4e5b9ull;
	x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32;
	return (x & 0x700) == 0 ? 0 : (x & 0x700) == 0x100 ? 0xff : (unsigned char)x;
}
static void fail(const char * what, const char * ty, size_t fill, size_t n, const bytes & want, const bytes & got) {
#ifdef CRASHES
	return;
#endif
	printf("FAIL %s: after %zu bytes, %zu bytes (generator seed %llu) as %s of %s: digest %s, as span of std::byte %s\n", STR, fill, n, seed, what, ty, hex(got).c_str(), hex(want).c_str());
	fflush(stdout);
	_exit(1);
}

// through update
template <class X> void check(const char * what, const char * ty, const Hasher & start, size_t fill, size_t n, const bytes & want, const X & x) {
	if constexpr (requires(Hasher & h) { h.update(x); }) {
		Hasher h(start);
		Hasher & r = h.update(x);
		++count;
		bytes got = digest(h);
		if (got != want) fail(what, ty, fill, n, want, got);
		if (&r != &h) { printf("FAIL %s: update() does not return the hasher\n", STR); _exit(1); }
	}
}
template <class X> void check_simple(const char * what, const char * ty, size_t n, const bytes & want, const bytes & seeded, const X & x) {
#ifndef XOF
	if constexpr (requires { cthash::simple<Hasher>(x); }) {
		auto v = cthash::simple<Hasher>(x);
		auto * p = (const unsigned char *)v.data();
		bytes got(p, p + v.size());
		++count;
		if (got != want) fail((std::string("simple() ") + what).c_str(), ty, 0, n, want, got);
	}
#if W
	if constexpr (requires { cthash::simple<Hasher>(x, decltype(Hasher::seed){7}); }) {
		auto v = cthash::simple<Hasher>(x, (decltype(Hasher::seed))seed);
		auto * p = (const unsigned char *)v.data();
		bytes got(p, p + v.size());
		++count;
		if (got != seeded) fail((std::string("simple() with seed ") + what).c_str(), ty, 0, n, seeded, got);
	}
#endif
#endif
}
struct Ctx {
	Hasher start;
	size_t fill;
	std::vector<unsigned char> data;
};
static bytes ref(const Hasher & start, const unsigned char * p, size_t n) {
	Hasher h(start);
	h.update(std::span<const std::byte>((const std::byte *)p, n));
	return digest(h);
}
static bytes ref_seeded(const unsigned char * p, size_t n) {
#if W
	Hasher h((decltype(Hasher::seed))seed);
	return ref(h, p, n);
#else
	(void)p; (void)n;
	return {};
#endif
}

template <class T> constexpr bool is_char = std::is_same_v<T, char> || std::is_same_v<T, char8_t>;

template <class T> void dynamic(const char * ty, const Hasher & start, size_t fill, const unsigned char * d, size_t n, bool big = false) {
	bytes want = ref(start, d, n);
	bytes seeded = fill ? bytes{} : ref_seeded(d, n);
	auto * p = (const T *)d;
	auto go = [&](const char * what, const auto & x) {
		check(what, ty, start, fill, n, want, x);
		if (!fill) check_simple(what, ty, n, want, seeded, x);
	};
	go("span", std::span<const T>(p, n));
	go("writable span", std::span<T>((T *)p, n));
	if constexpr (is_char<T>) go("string view", std::basic_string_view<T>(p, n));
	if (big) return;
	go("vector", std::vector<T>(p, p + n));
	if constexpr (is_char<T>) go("string", std::basic_string<T>(p, p + n));
}
template <class T, size_t N> void fixed1(const char * ty, const Hasher & start, size_t fill, const unsigned char * d) {
	bytes want = ref(start, d, N);
	bytes seeded = fill ? bytes{} : ref_seeded(d, N);
	auto go = [&](const char * what, const auto & x) {
		check(what, ty, start, fill, N, want, x);
		if (!fill) check_simple(what, ty, N, want, seeded, x);
	};
	auto a = std::make_unique<std::array<T, N>>();
	if (N) std::memcpy(a->data(), d, N);
	go("array", *a);
	go("fixed span", std::span<const T, N>((const T *)d, N));
	if constexpr (is_char<T>) {
		T lit[N + 1];
		std::memcpy(lit, d, N);
		lit[N] = T{};
		go("string literal", lit);
	} else if constexpr (N > 0) {
		T raw[N];
		std::memcpy(raw, d, N);
		go("built-in array", raw);
	}
}
template <class T> void fixed(const char * ty, const Hasher & start, size_t fill, const unsigned char * d) {
	[&]<size_t... I>(std::index_sequence<I...>) { (fixed1<T, I>(ty, start, fill, d), ...); }(std::make_index_sequence<20>());
	fixed1<T, BLOCK - 1>(ty, start, fill, d);
	fixed1<T, BLOCK>(ty, start, fill, d);
	fixed1<T, BLOCK + 1>(ty, start, fill, d);
	fixed1<T, 2 * BLOCK + 7>(ty, start, fill, d);
	fixed1<T, 256>(ty, start, fill, d);
	fixed1<T, 257>(ty, start, fill, d);
}
template <class F> void types(F && f) {
	f((const char *)nullptr, "char");
	f((const unsigned char *)nullptr, "unsigned char");
	f((const signed char *)nullptr, "signed char");
	f((const char8_t *)nullptr, "char8_t");
	f((const std::byte *)nullptr, "std::byte");
}

int main(int argc, char ** argv) {
	std::string mode = argc > 1 ? argv[1] : "all";
	if (argc > 2) seed = strtoull(argv[2], nullptr, 10);
	std::vector<unsigned char> buf(8 * BLOCK + 8192), pre(8 * BLOCK);
	for (size_t i = 0; i < buf.size(); ++i) buf[i] = at(i + 5000);
	for (size_t i = 0; i < pre.size(); ++i) pre[i] = at(i);
	auto from = [&](size_t fill) { Hasher h; h.update(std::span<const std::byte>((const std::byte *)pre.data(), fill)); return h; };
	if (mode == "history") {
		for (int i = 3; i + 1 < argc; i += 2) {
			size_t fill = strtoull(argv[i], nullptr, 10), n = strtoull(argv[i + 1], nullptr, 10);
			if (fill > pre.size()) continue;
			auto h = from(fill);
			if (n <= buf.size()) types([&]<class T>(const T *, const char * ty) { dynamic<T>(ty, h, fill, buf.data(), n); });
		}
	} else if (mode == "long") {
		size_t n = (size_t(1) << 32) + BLOCK + 5;
		void * m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) return 0;
		auto * p = (unsigned char *)m;
		for (size_t i = 0; i < 600; ++i) { p[i] = at(i); p[n - 600 + i] = at(i + 99); }
		Hasher h;
		bytes want = ref(h, p, n);
		auto one = [&](const char * what, const char * ty, const auto & x) { check(what, ty, h, 0, n, want, x); };
		one("string view", "char", std::string_view((const char *)p, n));
		one("string view", "char8_t", std::u8string_view((const char8_t *)p, n));
		one("span", "unsigned char", std::span<const unsigned char>(p, n));
	} else {
		for (size_t fill = 0; fill <= BLOCK + 1; ++fill) {
			auto h = from(fill);
			bool edge = fill < 10 || fill + 3 > BLOCK || fill % 8 == 0;
			types([&]<class T>(const T *, const char * ty) {
				if (fill == 0) for (size_t n = 0; n <= 2 * BLOCK + 9; ++n) dynamic<T>(ty, h, fill, buf.data(), n);
				else if (edge) for (size_t n: {size_t(0), size_t(1), size_t(7), BLOCK - fill % BLOCK - 1, BLOCK - fill % BLOCK, BLOCK - fill % BLOCK + 1, size_t(BLOCK), size_t(BLOCK + 1), size_t(2 * BLOCK), size_t(3 * BLOCK - 1)}) dynamic<T>(ty, h, fill, buf.data() + n % 7, n);
				if (fill < 2 || fill % 16 == 9 || fill + 1 == BLOCK) fixed<T>(ty, h, fill, buf.data());
			});
		}
		auto h = from(0);
		types([&]<class T>(const T *, const char * ty) {
			for (size_t n: {255, 256, 257, 511, 512, 513, 1000, 4096, 65535 % 8000}) dynamic<T>(ty, h, 0, buf.data(), n);
			std::vector<unsigned char> big(70000);
			for (size_t i = 0; i < big.size(); ++i) big[i] = at(i + 77);
			for (size_t n: {65535, 65536, 65537, 70000}) dynamic<T>(ty, h, 0, big.data(), n);
		});
	}
	printf("ok %llu\n", count);
}
