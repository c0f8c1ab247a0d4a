// usage: text_driver <seed>    (compiled with -DPART=10|11|12|13|14|16)
#ifndef SINGLE
#include <cthash/cthash.hpp>
#else
#include <cthash-single-header.hpp>
#endif
#include "text_ref.hpp"
#include <format>
#include <iterator>
#include <list>
#include <ranges>
#include <sstream>

namespace ce = cthash::encoding;
uint64_t SEED = 1;

template <class F> void each_encoding(F f) {
	f.template operator()<ce::base64>("base64");
	f.template operator()<ce::base64_no_padding>("base64_no_padding");
	f.template operator()<ce::base64url>("base64url");
	f.template operator()<ce::base32>("base32");
	f.template operator()<ce::base32_no_padding>("base32_no_padding");
	f.template operator()<ce::z_base32>("z_base32");
	f.template operator()<ce::base16>("base16");
	f.template operator()<ce::base16_uppercase>("BASE16");
	f.template operator()<ce::base8>("base8");
	f.template operator()<ce::base4>("base4");
	f.template operator()<ce::base2>("base2");
}
template <class T> std::vector<T> as(const std::vector<unsigned char> & b) {
	std::vector<T> r;
	for (auto x: b) r.push_back(T(x));
	return r;
}
template <class C, class V> std::string drain(V && v, size_t cap) {
	std::basic_string<C> s;
	auto it = v.begin();
	auto e = v.end();
	for (; !(it == e); ++it) { s += *it; if (s.size() > cap) break; }
	return narrow(s);
}
template <class C, class V> std::string drain_post(V && v, size_t cap) {
	std::basic_string<C> s;
	auto it = v.begin();
	while (!(it == v.end())) { auto o = it++; s += *o; if (s.size() > cap) break; }
	return narrow(s);
}

#if PART == 10
template <class E, class T, class C> void one(const char * en, const char * tn, const std::vector<unsigned char> & b) {
	at(std::string(en) + " of " + tn + " {" + hex(b.data(), b.size()).substr(0, 200) + "} (" + std::to_string(b.size()) + " bytes)");
	std::string exp = ref_encode(enc_of(en), b.data(), b.size());
	auto d = as<T>(b);
	std::unique_ptr<T[]> own(new T[d.size() ? d.size() : 1]);
	std::copy(d.begin(), d.end(), own.get());
	std::span<const T> sp(own.get(), d.size());
	auto v = sp | cthash::encode_to<E, C>;
	const auto & cv = v;
	expect("text (const view)", exp, drain<C>(cv, exp.size() + 8));
	expect("text (view)", exp, drain<C>(v, exp.size() + 8));
	expect("text (it++)", exp, drain_post<C>(cv, exp.size() + 8));
	expect("size()", exp.size(), size_t(cv.size()));
	if constexpr (std::same_as<C, char>) {
		std::basic_string<C> s;
		s.resize(exp.size());
		std::ranges::copy(v, s.begin());
		expect("ranges::copy", exp, narrow(s));
		std::ostringstream os;
		os << v;
		expect("stream", exp, os.str());
	}
	if constexpr (std::same_as<C, char> && std::same_as<T, unsigned char>) {
		auto v2 = d | cthash::encode_to<E, C>;
		expect("text of a vector", exp, drain<C>(v2, exp.size() + 8));
	}
}
void part() {
	each_encoding([]<class E>(const char * en) {
		for (size_t n = 0; n <= 33; ++n) patterns(n, SEED, 12, [&](auto & b) {
			one<E, std::byte, char>(en, "std::byte", b);
			one<E, unsigned char, char>(en, "unsigned char", b);
			if (n < 12) {
				one<E, char, char>(en, "char", b);
				one<E, signed char, char>(en, "signed char", b);
				one<E, std::byte, wchar_t>(en, "std::byte to wchar_t", b);
				one<E, std::byte, char8_t>(en, "std::byte to char8_t", b);
				one<E, std::byte, char16_t>(en, "std::byte to char16_t", b);
				one<E, std::byte, char32_t>(en, "std::byte to char32_t", b);
			}
		});
		for (unsigned x = 0; x < 65536; x += x < 256 ? 1 : 7) {
			std::vector<unsigned char> b{(unsigned char)(x >> 8), (unsigned char)x};
			one<E, std::byte, char>(en, "std::byte", b);
		}
		for (size_t n: {64, 127, 255, 256, 257, 1000, 4096, 65535, 65536, 65537}) patterns(n, SEED + 1, 1, [&](auto & b) { if (b[0] != 0 || n < 300) one<E, std::byte, char>(en, "std::byte", b); });
		// the announced size of very long inputs
		for (size_t n: {(size_t(1) << 28) + 1, (size_t(1) << 29) + 1, (size_t(1) << 32) + 5, (size_t(1) << 40) + 3}) {
			at(std::string(en) + " of " + std::to_string(n) + " bytes");
			auto & e = enc_of(en);
			unsigned __int128 bits = (unsigned __int128)n * 8;
			size_t exp = size_t((bits + e.bits - 1) / e.bits);
			if (e.pad) while (exp * e.bits % 8) ++exp;
			std::span<const std::byte> sp((const std::byte *)4096, n);
			expect("size()", exp, size_t((sp | cthash::encode_to<E, char>).size()));
		}
	});
}
#endif

#if PART == 16
template <unsigned B, bool P, class T> void one(const char * tn, const std::vector<uint64_t> & in) {
	constexpr unsigned W = sizeof(T) * 8;
	std::string l;
	for (auto x: in) { char t[20]; snprintf(t, 20, "%llx,", (unsigned long long)x); l += t; }
	at("chunk_of_bits<" + std::to_string(B) + ", " + (P ? "true" : "false") + "> of " + tn + " {" + l.substr(0, 300) + "} (" + std::to_string(in.size()) + " elements)");
	++g_runs;
	std::vector<T> d;
	for (auto x: in) d.push_back(T(x));
	std::unique_ptr<T[]> own(new T[d.size() ? d.size() : 1]);
	std::copy(d.begin(), d.end(), own.get());
	std::span<const T> sp(own.get(), d.size());
	auto v = sp | cthash::chunk_of_bits<B, P>;
	const auto & cv = v;
	auto exp = ref_chunks(in, W, B, P);
	auto run = [&](auto & w, const char * nm) {
		size_t i = 0;
		auto it = w.begin();
		for (; !(it == w.end()); ++it, ++i) {
			if (i >= exp.size()) bad(nm, std::to_string(exp.size()) + " chunks", "more");
			auto c = *it;
			if (uint64_t(c.value) != exp[i].value) bad(std::string(nm) + " chunk " + std::to_string(i), std::to_string(exp[i].value), std::to_string(uint64_t(c.value)));
			if (uint64_t(c.missing_bits) != exp[i].missing) bad(std::string(nm) + " missing bits of chunk " + std::to_string(i), std::to_string(exp[i].missing), std::to_string(uint64_t(c.missing_bits)));
			if (c.is_padding() != (exp[i].missing == B)) bad(std::string(nm) + " is_padding of chunk " + std::to_string(i), std::to_string(exp[i].missing == B), std::to_string(c.is_padding()));
		}
		if (i != exp.size()) bad(nm, std::to_string(exp.size()) + " chunks", std::to_string(i));
	};
	run(cv, "const view");
	run(v, "view");
	{
		size_t i = 0;
		auto it = cv.begin();
		while (!(it == cv.end()) && i < exp.size()) { auto o = it++; if (uint64_t((*o).value) != exp[i].value) bad("it++ chunk " + std::to_string(i), std::to_string(exp[i].value), std::to_string(uint64_t((*o).value))); ++i; }
	}
	expect("size()", exp.size(), size_t(cv.size()));
}
template <unsigned B, bool P, class T> void width(const char * tn) {
	constexpr unsigned W = sizeof(T) * 8;
	if constexpr (std::lcm(B, W) <= 64) {
		std::mt19937_64 r(SEED * 77 + B);
		uint64_t mask = W == 64 ? ~0ull : (1ull << W) - 1;
		for (size_t n = 0; n <= 26; ++n) {
			std::vector<uint64_t> in(n);
			for (uint64_t v: {uint64_t(0), ~uint64_t(0), uint64_t(1), uint64_t(1) << (W - 1)}) { for (auto & x: in) x = v & mask; one<B, P, T>(tn, in); }
			for (int k = 0; k < 12; ++k) { for (auto & x: in) x = r() & mask; one<B, P, T>(tn, in); }
		}
		for (size_t n: {(size_t(1) << 29) + 1, (size_t(1) << 32) + 5, (size_t(1) << 40) + 3}) {
			at("chunk_of_bits<" + std::to_string(B) + ", " + (P ? "true" : "false") + "> of " + std::to_string(n) + " elements of " + tn);
			unsigned __int128 bits = (unsigned __int128)n * W;
			size_t e = size_t((bits + B - 1) / B);
			if (P) while (e * B % W) ++e;
			std::span<const T> sp((const T *)4096, n);
			expect("size()", e, size_t((sp | cthash::chunk_of_bits<B, P>).size()));
		}
	}
}
template <class T, unsigned... I> void widths(const char * tn, std::integer_sequence<unsigned, I...>) {
	(width<I + 1, false, T>(tn), ...);
	(width<I + 1, true, T>(tn), ...);
}
void part() {
	using S = std::make_integer_sequence<unsigned, 64>;
#if SUB == 0
	widths<std::byte>("std::byte", S{});
	widths<int8_t>("int8_t", S{});
#elif SUB == 1
	widths<uint16_t>("uint16_t", S{});
	widths<int16_t>("int16_t", S{});
#elif SUB == 2
	widths<uint32_t>("uint32_t", S{});
	widths<int32_t>("int32_t", S{});
#else
	widths<uint64_t>("uint64_t", S{});
	widths<int64_t>("int64_t", S{});
	widths<unsigned char>("unsigned char", S{});
#endif
}
#endif

#if PART == 11 || PART == 12 || PART == 13
template <class F> void each_type(F f) {
	f.template operator()<cthash::sha224_value>("sha224_value");
	f.template operator()<cthash::sha256_value>("sha256_value");
	f.template operator()<cthash::sha384_value>("sha384_value");
	f.template operator()<cthash::sha512_value>("sha512_value");
	f.template operator()<cthash::sha512t_value<224>>("sha512t_value<224>");
	f.template operator()<cthash::sha512t_value<256>>("sha512t_value<256>");
	f.template operator()<cthash::sha512t_value<8>>("sha512t_value<8>");
	f.template operator()<cthash::sha512t_value<488>>("sha512t_value<488>");
	f.template operator()<cthash::sha3_224_value>("sha3_224_value");
	f.template operator()<cthash::sha3_256_value>("sha3_256_value");
	f.template operator()<cthash::sha3_384_value>("sha3_384_value");
	f.template operator()<cthash::sha3_512_value>("sha3_512_value");
	f.template operator()<cthash::shake128_value<128>>("shake128_value<128>");
	f.template operator()<cthash::shake128_value<1600>>("shake128_value<1600>");
	f.template operator()<cthash::shake256_value<256>>("shake256_value<256>");
	f.template operator()<cthash::shake256_value<72>>("shake256_value<72>");
	f.template operator()<cthash::xxhash32_value>("xxhash32_value");
	f.template operator()<cthash::xxhash64_value>("xxhash64_value");
	f.template operator()<cthash::hash_value<1>>("hash_value<1>");
	f.template operator()<cthash::hash_value<2>>("hash_value<2>");
	f.template operator()<cthash::hash_value<3>>("hash_value<3>");
	f.template operator()<cthash::hash_value<5>>("hash_value<5>");
	f.template operator()<cthash::hash_value<7>>("hash_value<7>");
	f.template operator()<cthash::hash_value<20>>("hash_value<20>");
	f.template operator()<cthash::hash_value<33>>("hash_value<33>");
	f.template operator()<cthash::hash_value<63>>("hash_value<63>");
	f.template operator()<cthash::hash_value<64>>("hash_value<64>");
}
template <class V> V make(const std::vector<unsigned char> & b) {
	V v{};
	for (size_t i = 0; i < b.size(); ++i) v[i] = std::byte(b[i]);
	return v;
}
template <class V> std::string bytes_of(const V & v) {
	return hex((const unsigned char *)v.data(), v.size());
}
#endif

#if PART == 11
template <class V, class C> void parse(const char * tn, const char * cn, const std::vector<unsigned char> & b, int style) {
	constexpr size_t N = sizeof(V);
	std::string tx = hex(b.data(), b.size());
	if (style == 1) for (auto & c: tx) c = char(toupper(c));
	if (style == 2) for (size_t i = 0; i < tx.size(); ++i) if ((i * 7 + b[0]) % 3) tx[i] = char(toupper(tx[i]));
	at(std::string(tn) + " from " + cn + " text " + tx);
	C arr[N * 2 + 1]{};
	for (size_t i = 0; i < N * 2; ++i) arr[i] = C(tx[i]);
	V v(arr);
	expect("value from an array", hex(b.data(), b.size()), bytes_of(v));
	cthash::fixed_string<C, N * 2> fs{nullptr};
	std::copy_n(arr, N * 2, fs.begin());
	V w(fs);
	expect("value from a fixed_string", hex(b.data(), b.size()), bytes_of(w));
}
#define LIT(SUF, TXT) { at("literal \"" TXT "\"_" #SUF); std::string lo = TXT; for (auto & c: lo) c = char(tolower(c)); \
	expect("value", lo, bytes_of(TXT ## _##SUF)); expect("u8 value", lo, bytes_of(u8## TXT ## _##SUF)); expect("u value", lo, bytes_of(u ## TXT ## _##SUF)); expect("U value", lo, bytes_of(U ## TXT ## _##SUF)); expect("L value", lo, bytes_of(L ## TXT ## _##SUF)); }
#define T4 "0fF0ff00"
#define T4B "a5B6c7D8"
#define T4C "9A9bFEef"
#define T28 T4 T4B T4C T4 T4C T4B T4
#define T32 T28 "12345678"
#define T48 T32 T4C T4B T4 "DeadBeef"
#define T64 T32 "fedcba98" T28
void part() {
	each_type([]<class V>(const char * tn) {
		constexpr size_t N = sizeof(V);
		patterns(N, SEED, 12, [&](auto & b) {
			for (int s = 0; s < 3; ++s) {
				if constexpr (true) {
					parse<V, char>(tn, "char", b, s);
					parse<V, wchar_t>(tn, "wchar_t", b, s);
					parse<V, char8_t>(tn, "char8_t", b, s);
					parse<V, char16_t>(tn, "char16_t", b, s);
					parse<V, char32_t>(tn, "char32_t", b, s);
				}
			}
			at(std::string(tn) + " {" + hex(b.data(), b.size()) + "} rendered and parsed back");
			cthash::hash_value<N> h = make<cthash::hash_value<N>>(b);
			expect("value", bytes_of(h), bytes_of(cthash::hash_value<N>(to_fixed_string(h))));
			expect("value (upper case)", bytes_of(h), bytes_of(cthash::hash_value<N>(to_fixed_string<ce::base16_uppercase>(h))));
		});
	});
	using namespace cthash::literals;
	LIT(sha224, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00");
	LIT(sha256, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff0012345678");
	LIT(sha384, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00123456780fF0ff00a5B6c7D89A9bFEef0fF0ff00");
	LIT(sha512, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00123456780fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff0012345678");
	LIT(sha512_224, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00");
	LIT(sha512_256, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff0012345678");
	LIT(sha3_224, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00");
	LIT(sha3_256, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff0012345678");
	LIT(sha3_384, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00123456780fF0ff00a5B6c7D89A9bFEef0fF0ff00");
	LIT(sha3_512, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00123456780fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff0012345678");
	LIT(shake128, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff00");
	LIT(shake128, "aF");
	LIT(shake256, "0fF0ff00a5B6c7D89A9bFEef0fF0ff009A9bFEefa5B6c7D80fF0ff0012345678");
	LIT(shake256, "aFBE12");
	LIT(xxh32, "9A9bFEef");
	LIT(xxh64, "9A9bFEefa5B6c7D8");
	LIT(hash, "9A9bFEefa5B6c7D8a1");
}
#endif

#if PART == 12
template <class A, class B> void cmp(const std::string & where, const A & a, const B & b, int o) {
	at(where + " {" + bytes_of(a) + "} with {" + bytes_of(b) + "}");
	++g_runs;
	auto c = a <=> b;
	int g = c < 0 ? -1 : c > 0 ? 1 : c == 0 ? 0 : 7;
	expect("<=>", o, g);
	expect("==", int(o == 0), int(a == b));
	expect("!=", int(o != 0), int(a != b));
	expect("<", int(o < 0), int(a < b));
	expect(">", int(o > 0), int(a > b));
	expect("<=", int(o <= 0), int(a <= b));
	expect(">=", int(o >= 0), int(a >= b));
}
inline int order(const void * a, const void * b, size_t n) { int c = memcmp(a, b, n); return c < 0 ? -1 : c > 0; }
template <class V> void slices(const char * tn, const std::vector<unsigned char> & b) {
	constexpr size_t N = sizeof(V);
	auto v = make<V>(b);
	std::string h = hex(b.data(), N);
	[&]<size_t... I>(std::index_sequence<I...>) {
		auto go = [&]<size_t K>(std::integral_constant<size_t, K>) {
			at(std::string(tn) + " {" + h + "} prefix/suffix<" + std::to_string(K) + ">");
			auto p = v.template prefix<K>();
			auto s = v.template suffix<K>();
			expect("prefix", h.substr(0, 2 * K), hex((const unsigned char *)p.data(), p.size()));
			expect("suffix", h.substr(2 * (N - K)), hex((const unsigned char *)s.data(), s.size()));
		};
		(go(std::integral_constant<size_t, I>{}), ...);
	}(std::make_index_sequence<(N < 40 ? N : 40) + 1>{});
	auto p = v.template prefix<N>();
	expect("prefix", h, bytes_of(p));
}
void part() {
	each_type([]<class V>(const char * tn) {
		constexpr size_t N = sizeof(V);
		std::mt19937_64 r(SEED * 31 + N);
		for (int k = 0; k < 300; ++k) {
			std::vector<unsigned char> a(N), b(N);
			for (auto & x: a) x = (unsigned char)r();
			b = a;
			cmp(tn, make<V>(a), make<V>(b), 0);
			if (k % 3 == 0) for (auto & x: b) x = (unsigned char)r();
			else { b[r() % N] = (unsigned char)r(); if (k % 3 == 1) b[r() % N] ^= 0x80; }
			cmp(tn, make<V>(a), make<V>(b), order(a.data(), b.data(), N));
		}
		for (size_t i = 0; i < N; ++i) for (unsigned bit = 0; bit < 8; ++bit) for (int base: {0, 0xff, 0x7f}) {
			std::vector<unsigned char> a(N, (unsigned char)base), b = a;
			b[i] ^= (unsigned char)(1u << bit);
			cmp(tn, make<V>(a), make<V>(b), order(a.data(), b.data(), N));
			if (i + 1 < N) { b[i + 1] ^= 0xff; cmp(tn, make<V>(a), make<V>(b), order(a.data(), b.data(), N)); cmp(tn, make<V>(b), make<V>(a), order(b.data(), a.data(), N)); }
		}
		patterns(N, SEED, 3, [&](auto & b) { slices<V>(tn, b); });
	});
	auto shk = []<class A, class B>(const char * tn, A, B) {
		constexpr size_t NA = sizeof(A), NB = sizeof(B), N = NA < NB ? NA : NB;
		std::mt19937_64 r(SEED * 91 + NA * 64 + NB);
		for (int k = 0; k < 400; ++k) {
			std::vector<unsigned char> a(NA), b(NB);
			for (auto & x: a) x = (unsigned char)r();
			for (auto & x: b) x = (unsigned char)r();
			if (k % 4) std::copy_n(a.begin(), N, b.begin());
			if (k % 4 == 1) b[r() % N] = (unsigned char)r();
			if (k % 4 == 2) b[N - 1] ^= (unsigned char)(1u << (r() % 8));
			cmp(tn, make<A>(a), make<B>(b), order(a.data(), b.data(), N));
			cmp(tn, make<B>(b), make<A>(a), order(b.data(), a.data(), N));
		}
	};
	auto fam = [&]<size_t... Ns>(std::index_sequence<Ns...>) {
		auto one = [&]<size_t X>() {
			(shk((std::string("shake128 values of ") + std::to_string(X) + " and " + std::to_string(Ns) + " bits").c_str(), cthash::shake128_value<X>{}, cthash::shake128_value<Ns>{}), ...);
			(shk((std::string("shake256 values of ") + std::to_string(X) + " and " + std::to_string(Ns) + " bits").c_str(), cthash::shake256_value<X>{}, cthash::shake256_value<Ns>{}), ...);
		};
		(one.template operator()<Ns>(), ...);
	};
	fam(std::index_sequence<8, 64, 160, 264, 384, 512, 520, 1344>{});
}
#endif

#if PART == 13
template <class T> const char * default_of() { return "base16"; }
template <class V, class E> void render(const char * tn, const char * en, const V & v, const std::vector<unsigned char> & b) {
	std::string exp = ref_encode(enc_of(en), b.data(), b.size());
	at(std::string(tn) + " {" + hex(b.data(), b.size()) + "} as " + en);
	++g_runs;
	expect("to_string", exp, narrow(to_string<E>(v)));
	expect("to_string<wchar_t>", exp, narrow(to_string<E, wchar_t>(v)));
	expect("to_string<char8_t>", exp, narrow(to_string<E, char8_t>(v)));
	auto f = to_fixed_string<E>(v);
	expect("to_fixed_string", exp, std::string(f.begin(), f.end()));
	auto fw = to_fixed_string<E, wchar_t>(v);
	expect("to_fixed_string<wchar_t>", exp, narrow(std::wstring(fw.begin(), fw.end())));
	std::ostringstream os;
	v.template print_into<E>(os);
	expect("print_into", exp, os.str());
	std::wostringstream ws;
	v.template print_into<E>(ws);
	expect("print_into (wide)", exp, narrow(ws.str()));
	std::ostringstream o2;
	o2 << (v | cthash::encode_to<E, char>);
	expect("stream of the encoded view", exp, o2.str());
	expect("view", exp, drain<char>(v | cthash::encode_to<E, char>, exp.size() + 8));
	expect("encode_to(...).to_string()", exp, (v | cthash::encode_to<E, char>).to_string());
	std::string fmt = std::string("{:") + en + "}";
	expect("std::format " + fmt, exp, std::vformat(fmt, std::make_format_args(v)));
	expect("std::format of the view", exp, std::format("{}", v | cthash::encode_to<E, char>));
	std::wstring wf(fmt.begin(), fmt.end());
	expect("std::format (wide) " + fmt, exp, narrow(std::vformat(wf, std::make_wformat_args(v))));
	if (auto * a = enc_of(en).alt) {
		fmt = std::string("{:") + a + "}";
		expect("std::format " + fmt, exp, std::vformat(fmt, std::make_format_args(v)));
	}
}
template <class V> void defaults(const char * tn, const char * en, const V & v, const std::vector<unsigned char> & b) {
	std::string exp = ref_encode(enc_of(en), b.data(), b.size());
	at(std::string(tn) + " {" + hex(b.data(), b.size()) + "} without an explicit encoding");
	++g_runs;
	expect("to_string", exp, narrow(to_string(v)));
	auto f = to_fixed_string(v);
	expect("to_fixed_string", exp, std::string(f.begin(), f.end()));
	std::ostringstream os;
	os << v;
	expect("stream", exp, os.str());
	std::ostringstream o2;
	v.print_into(o2);
	expect("print_into", exp, o2.str());
	std::wostringstream ws;
	ws << v;
	expect("wide stream", exp, narrow(ws.str()));
	for (auto fl: {std::ios::uppercase | std::ios::hex, std::ios::oct | std::ios::showbase, std::ios::left | std::ios::boolalpha, std::ios::internal | std::ios::showpos | std::ios::unitbuf}) {
		std::ostringstream o;
		o.setf(fl);
		o.fill('*');
		o.precision(2);
		o << v;
		expect("stream with other flags", exp, o.str());
	}
	expect("std::format {}", exp, std::format("{}", v));
	expect("std::format {:}", exp, std::format("{:}", v));
	expect("std::format L{}", exp, narrow(std::format(L"{}", v)));
}
struct t64 { static constexpr size_t digest_length = 10; using encoding = ce::base64; };
struct t32 { static constexpr size_t digest_length = 9; using encoding = ce::z_base32; };
template <size_t N, class E> struct tg { static constexpr size_t digest_length = N; using encoding = E; };
template <size_t N, class E> void dflt(const char * en) {
	using V = cthash::tagged_hash_value<tg<N, E>>;
	patterns(N, SEED, 1, [&](auto & b) { defaults("tagged value", en, make<V>(b), b); });
}
template <class E> void dflts(const char * en) { dflt<1, E>(en); dflt<20, E>(en); dflt<28, E>(en); dflt<32, E>(en); dflt<48, E>(en); dflt<64, E>(en); }
struct tno { static constexpr size_t digest_length = 11; };
template <class V> void all(const char * tn, const char * def, int rnd) {
	patterns(sizeof(V), SEED, rnd, [&](auto & b) {
		auto v = make<V>(b);
		defaults(tn, def, v, b);
		each_encoding([&]<class E>(const char * en) { render<V, E>(tn, en, v, b); });
	});
}
void part() {
#if SUB == 0
	all<cthash::sha256_value>("sha256_value", "base16", 8);
	all<cthash::hash_value<1>>("hash_value<1>", "base16", 30);
	dflts<ce::base64url>("base64url");
	all<cthash::hash_value<5>>("hash_value<5>", "base16", 8);
	all<cthash::tagged_hash_value<t64>>("tagged value with base64 default", "base64", 8);
#elif SUB == 1
	all<cthash::sha512_value>("sha512_value", "base16", 3);
	dflts<ce::base32>("base32");
	all<cthash::xxhash32_value>("xxhash32_value", "base16", 8);
	all<cthash::tagged_hash_value<t32>>("tagged value with z-base32 default", "z_base32", 8);
	all<cthash::tagged_hash_value<tno>>("tagged value without a default", "base16", 8);
#elif SUB == 2
	all<cthash::sha3_224_value>("sha3_224_value", "base16", 3);
	all<cthash::shake128_value<1600>>("shake128_value<1600>", "base16", 3);
	all<cthash::xxhash64_value>("xxhash64_value", "base16", 8);
	all<cthash::sha512t_value<488>>("sha512t_value<488>", "base16", 3);
#else
	all<cthash::sha384_value>("sha384_value", "base16", 3);
	all<cthash::shake256_value<72>>("shake256_value<72>", "base16", 8);
	dflts<ce::base16_uppercase>("BASE16");
	all<cthash::hash_value<2>>("hash_value<2>", "base16", 30);
	all<cthash::hash_value<3>>("hash_value<3>", "base16", 30);
#endif
}
#endif

#if PART == 14
template <class C> std::basic_string<C> widen(const std::string & s) { return std::basic_string<C>(s.begin(), s.end()); }
template <class C> struct ctx {
	using iterator = const C *;
	std::basic_string<C> s;
	const C * begin() const { return s.data(); }
	const C * end() const { return s.data() + s.size(); }
};
template <class C> struct octx {
	std::back_insert_iterator<std::basic_string<C>> o;
	auto out() { return o; }
};
struct t64 { static constexpr size_t digest_length = 7; using encoding = ce::base64; };
template <class V, class C> void spec(const char * def, const std::basic_string<C> & text) {
	std::vector<unsigned char> b(sizeof(V));
	for (size_t i = 0; i < b.size(); ++i) b[i] = (unsigned char)(0x5a + 83 * i);
	V v{};
	for (size_t i = 0; i < b.size(); ++i) v[i] = std::byte(b[i]);
	size_t stop = 0;
	while (stop < text.size() && text[stop] != C('}')) ++stop;
	auto name = text.substr(0, stop);
	const char * exp = nullptr;
	if (name.empty()) exp = def;
	for (auto & e: ENCS) if (name == widen<C>(e.name) || (e.alt && name == widen<C>(e.alt))) exp = e.name;
	at("specification " + quote(narrow(text)) + " of " + std::to_string(sizeof(C) * 8) + " bit characters");
	++g_runs;
	ctx<C> c{text};
	std::formatter<V, C> f;
	std::string got = "an error";
	size_t used = 0;
	try {
		used = size_t(f.parse(c) - c.begin());
		std::basic_string<C> out;
		octx<C> oc{std::back_inserter(out)};
		f.format(v, oc);
		got = narrow(out);
	} catch (const std::exception &) {
		expect("result", std::string(exp ? ref_encode(enc_of(exp), b.data(), b.size()) : "an error"), got);
		return;
	}
	expect("result", std::string(exp ? ref_encode(enc_of(exp), b.data(), b.size()) : "an error"), got);
	expect("characters consumed", stop, used);
}
template <class V, class C> void specs(const char * def) {
	std::vector<std::string> names;
	for (auto & e: ENCS) { names.push_back(e.name); if (e.alt) names.push_back(e.alt); }
	std::string all = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-. {}:\0\x7f\x80\xff";
	auto go = [&](const std::string & s) { for (auto t: {"", "}", "}x", "}}"}) spec<V, C>(def, widen<C>(s + t)); };
	auto go1 = [&](const std::basic_string<C> & s) { spec<V, C>(def, s); spec<V, C>(def, s + C('}')); };
	go("");
	for (auto & n: names) {
		go(n);
		for (size_t i = 0; i <= n.size(); ++i) {
			go(n.substr(0, i));
			go(n.substr(i));
			for (char c: all) { auto m = n; m.insert(i, 1, c); go(m); if (i < n.size()) { m = n; m[i] = c; go(m); } }
			if (i < n.size()) {
				auto m = n; m.erase(i, 1); go(m);
				if constexpr (sizeof(C) > 1) for (C k: {C(0x100), C(0x200), C(0xff00), C(0x8000)}) { auto w = widen<C>(n); w[i] = C(w[i] | k); go1(w); }
			}
		}
		for (auto & k: names) { go(n + k); go(n + "_" + k); }
		go(n + " "); go(" " + n); go(n + std::string(1, 0)); go(n + std::string(40, 'x')); go(n + std::string(256, 'x')); go(std::string(256, 'x') + n); go(n + std::string(256 - n.size(), 0)); go(n + std::string(256 - n.size(), 0) + n);
		go(n + std::string(18 - n.size(), 0)); go(n + std::string(17 - n.size(), 0));
	}
	if constexpr (sizeof(C) > 1) { go1(std::basic_string<C>{C(0x17d)}); go1(widen<C>("base64") + C(0x17d)); }
	for (char c: all) for (char d: all) go(std::string{c, d});
	std::mt19937 r(unsigned(SEED) + 5);
	for (int k = 0; k < 20000; ++k) { std::string s; for (size_t n = r() % 24; n--;) s += all[r() % all.size()]; go(s); }
}
void part() {
	specs<cthash::sha256_value, char>("base16");
	specs<cthash::hash_value<5>, char>("base16");
	specs<cthash::tagged_hash_value<t64>, char>("base64");
	specs<cthash::sha256_value, wchar_t>("base16");
	specs<cthash::hash_value<5>, wchar_t>("base16");
}
#endif

int main(int argc, char ** argv) {
	install2();
	if (argc > 1) SEED = strtoull(argv[1], nullptr, 10);
	part();
	printf("OK %lu\n", g_runs);
}
