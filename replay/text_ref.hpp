// Reference for the encodings: digits of the bit string, most significant first.
#pragma once
#include "battery.hpp"
#include <random>

struct enc_ref { const char * name; const char * alt; int bits; bool pad; const char * alpha; };
#define A64 "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
#define A32 "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
inline const enc_ref ENCS[] = {
	{"base64", nullptr, 6, true, A64 "+/"},
	{"base64_no_padding", nullptr, 6, false, A64 "+/"},
	{"base64url", "base64_url", 6, false, A64 "-_"},
	{"base32", nullptr, 5, true, A32},
	{"base32_no_padding", nullptr, 5, false, A32},
	{"z_base32", "zbase32", 5, false, "ybndrfg8ejkmcpqxot1uwisza345h769"},
	{"base16", "hexdec", 4, false, "0123456789abcdef"},
	{"BASE16", "HEXDEC", 4, false, "0123456789ABCDEF"},
	{"base8", "octal", 3, true, "01234567"},
	{"base4", nullptr, 2, false, "0123"},
	{"base2", "binary", 1, false, "01"},
};
inline const enc_ref & enc_of(std::string_view n) {
	for (auto & e: ENCS) if (n == e.name || (e.alt && n == e.alt)) return e;
	abort();
}
inline size_t gcd_(size_t a, size_t b) { while (b) { size_t t = a % b; a = b; b = t; } return a; }

struct chunk_ref { uint64_t value; unsigned missing; };
// the digits of elements of w bits
inline std::vector<chunk_ref> ref_chunks(const std::vector<uint64_t> & in, unsigned w, unsigned b, bool pad) {
	std::vector<chunk_ref> out;
	size_t total = in.size() * w;
	for (size_t i = 0; i < total; i += b) {
		uint64_t v = 0;
		unsigned miss = 0;
		for (size_t k = i; k < i + b; ++k) {
			v <<= 1;
			if (k < total) v |= (in[k / w] >> (w - 1 - k % w)) & 1; else ++miss;
		}
		out.push_back({v, miss});
	}
	if (pad) while (out.size() * b % w) out.push_back({0, b});
	return out;
}
inline std::string ref_encode(const enc_ref & e, const unsigned char * p, size_t n) {
	std::vector<uint64_t> v(p, p + n);
	std::string s;
	for (auto & c: ref_chunks(v, 8, e.bits, e.pad)) s += c.missing == unsigned(e.bits) ? '=' : e.alpha[c.value];
	return s;
}
inline std::string quote(const std::string & s) {
	std::string r = "\"";
	for (unsigned char c: s) { if (c >= 32 && c < 127) r += char(c); else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } }
	return r + "\"";
}
template <class C> std::string narrow(const std::basic_string<C> & s) {
	std::string r;
	for (auto c: s) {
		auto u = uint32_t(std::make_unsigned_t<decltype(+c)>(c));
		if (sizeof(C) == 1) u &= 0xff;
		if (u < 256) r += char(u); else { char b[16]; snprintf(b, 16, "<U+%x>", u); r += b; }
	}
	return r;
}
inline std::string g_what;
inline char g_where[512];
inline void at(const std::string & s) { g_what = s; snprintf(g_where, sizeof g_where, "%s", s.c_str()); }
inline void bad(const std::string & what, const std::string & exp, const std::string & got) {
#ifdef CRASHES
	return;
#endif
	printf("FAIL %s: %s: required %s, got %s\n", g_what.c_str(), what.c_str(), exp.c_str(), got.c_str());
	fflush(stdout);
	_exit(1);
}
inline void on_sig2(int s) { char b[640]; int n = snprintf(b, sizeof b, "FAIL %s: signal %d\n", g_where, s); if (write(1, b, n)) {} _exit(1); }
inline void install2() { for (int s: {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGTRAP}) signal(s, on_sig2); }
template <class T> void expect(const std::string & what, const T & e, const T & g) { if (!(e == g)) { if constexpr (requires { quote(e); }) bad(what, quote(e), quote(g)); else bad(what, std::to_string(e), std::to_string(g)); } }
inline unsigned long g_runs = 0;
// patterns of n bytes
template <class F> void patterns(size_t n, uint64_t seed, int rnd, F f) {
	std::vector<unsigned char> b(n);
	auto go = [&] { ++g_runs; f(b); };
	for (int v: {0, 0xff, 0x80, 0x7f, 0x01, 0xa5}) { std::fill(b.begin(), b.end(), (unsigned char)v); go(); }
	std::mt19937_64 r(seed * 1000003 + n);
	for (int k = 0; k < rnd; ++k) { for (auto & x: b) x = (unsigned char)r(); go(); }
	for (size_t i = 0; i < n && i < 8; ++i) { std::fill(b.begin(), b.end(), (unsigned char)0); b[i] = 0x80; go(); b[i] = 1; go(); b[n - 1 - i] = 0xff; go(); }
}
