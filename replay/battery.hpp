// Replay driver: runs the real library on concrete inputs and compares with
// an independent reference.  Used only to find / confirm failing inputs after
// an obligation failed, and as the bounded stand-in where one is undecided.
#pragma once
#include <array>
#include <bit>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

namespace ref {
using u8 = unsigned char;
using u32 = uint32_t;
using u64 = uint64_t;
using bytes = std::vector<u8>;

template <class W> struct sha2k;
inline const u64 K512[80] = {
#include "k512.inc"
};

// SHA-2 with W = u32 or u64: the 32 bit constants are the upper halves
template <class W> struct sha2 {
	static constexpr size_t B = sizeof(W) * 16;
	W h[8];
	u8 buf[B];
	size_t used = 0;
	unsigned __int128 total = 0;
	size_t out;
	sha2(const u64 * iv, size_t o): out{o} { for (int i = 0; i < 8; ++i) h[i] = W(iv[i]); }
	static W rr(W x, int n) { return std::rotr(x, n); }
	void block(const u8 * p) {
		constexpr bool s = sizeof(W) == 4;
		constexpr int N = s ? 64 : 80;
		W w[N];
		for (int i = 0; i < 16; ++i) { w[i] = 0; for (size_t k = 0; k < sizeof(W); ++k) w[i] = W(w[i] << 8) | p[i * sizeof(W) + k]; }
		for (int i = 16; i < N; ++i) {
			W a = w[i - 15], b = w[i - 2];
			W s0 = s ? W(rr(a, 7) ^ rr(a, 18) ^ (a >> 3)) : W(rr(a, 1) ^ rr(a, 8) ^ (a >> 7));
			W s1 = s ? W(rr(b, 17) ^ rr(b, 19) ^ (b >> 10)) : W(rr(b, 19) ^ rr(b, 61) ^ (b >> 6));
			w[i] = w[i - 16] + s0 + w[i - 7] + s1;
		}
		W v[8];
		std::memcpy(v, h, sizeof(h));
		for (int i = 0; i < N; ++i) {
			W e = v[4], a = v[0];
			W S1 = s ? W(rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) : W(rr(e, 14) ^ rr(e, 18) ^ rr(e, 41));
			W S0 = s ? W(rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) : W(rr(a, 28) ^ rr(a, 34) ^ rr(a, 39));
			W k = s ? W(K512[i] >> 32) : W(K512[i]);
			W t1 = v[7] + S1 + ((e & v[5]) ^ (W(~e) & v[6])) + k + w[i];
			W t2 = S0 + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
			for (int j = 7; j > 0; --j) v[j] = v[j - 1];
			v[4] += t1;
			v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; ++i) h[i] += v[i];
	}
	void update(const u8 * p, size_t n) {
		total += n;
		while (n) {
			if (!used && n >= B) { block(p); p += B; n -= B; continue; }
			size_t k = std::min(n, B - used);
			std::memcpy(buf + used, p, k);
			used += k; p += k; n -= k;
			if (used == B) { block(buf); used = 0; }
		}
	}
	bytes final() {
		unsigned __int128 bits = total * 8;
		u8 one = 0x80, z = 0;
		update(&one, 1);
		constexpr size_t L = sizeof(W) * 2;
		while (used != B - L) update(&z, 1);
		u8 len[L];
		for (size_t i = 0; i < L; ++i) len[L - 1 - i] = u8(bits >> (8 * i));
		update(len, L);
		bytes r;
		for (int i = 0; i < 8; ++i) for (int k = int(sizeof(W)) - 1; k >= 0; --k) r.push_back(u8(h[i] >> (8 * k)));
		r.resize(out);
		return r;
	}
};

inline const u64 IV224[8] = {0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4};
inline const u64 IV256[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
inline const u64 IV384[8] = {0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4};
inline const u64 IV512[8] = {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179};

inline sha2<u64> sha512t(unsigned t) {
	u64 iv[8];
	for (int i = 0; i < 8; ++i) iv[i] = IV512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
	sha2<u64> s(iv, 64);
	std::string n = "SHA-512/" + std::to_string(t);
	s.update((const u8 *)n.data(), n.size());
	bytes d = s.final();
	for (int i = 0; i < 8; ++i) { iv[i] = 0; for (int k = 0; k < 8; ++k) iv[i] = iv[i] << 8 | d[i * 8 + k]; }
	return sha2<u64>(iv, t / 8);
}

struct keccak {
	u64 a[5][5] = {};
	size_t rate, out, pos = 0;
	u8 suffix;
	keccak(size_t r, u8 s, size_t o): rate{r}, out{o}, suffix{s} { }
	void f() {
		u8 lfsr = 1;
		for (int round = 0; round < 24; ++round) {
			u64 c[5], b[5][5];
			for (int x = 0; x < 5; ++x) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
			for (int x = 0; x < 5; ++x) { u64 d = c[(x + 4) % 5] ^ std::rotl(c[(x + 1) % 5], 1); for (int y = 0; y < 5; ++y) a[x][y] ^= d; }
			int x = 1, y = 0;
			b[0][0] = a[0][0];
			for (int t = 0; t < 24; ++t) {
				b[y][(2 * x + 3 * y) % 5] = std::rotl(a[x][y], ((t + 1) * (t + 2) / 2) % 64);
				int ny = (2 * x + 3 * y) % 5; x = y; y = ny;
			}
			for (int yy = 0; yy < 5; ++yy) for (int xx = 0; xx < 5; ++xx) a[xx][yy] = b[xx][yy] ^ (~b[(xx + 1) % 5][yy] & b[(xx + 2) % 5][yy]);
			for (int j = 0; j < 7; ++j) {
				if (lfsr & 1) a[0][0] ^= u64(1) << ((1 << j) - 1);
				lfsr = u8((lfsr << 1) ^ ((lfsr >> 7) ? 0x71 : 0));
			}
		}
	}
	void xorb(size_t i, u8 v) { a[(i / 8) % 5][(i / 8) / 5] ^= u64(v) << (8 * (i % 8)); }
	u8 get(size_t i) { return u8(a[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8))); }
	void update(const u8 * p, size_t n) {
		for (size_t i = 0; i < n; ++i) { xorb(pos++, p[i]); if (pos == rate) { f(); pos = 0; } }
	}
	bytes final() {
		xorb(pos, suffix);
		xorb(rate - 1, 0x80);
		f();
		bytes r;
		for (size_t i = 0; r.size() < out; ++i) { if (i == rate) { f(); i = 0; } r.push_back(get(i)); }
		return r;
	}
};

template <class W> struct xx {
	static constexpr bool s = sizeof(W) == 4;
	static constexpr size_t B = sizeof(W) * 4;
	W p1 = s ? W(2654435761u) : W(11400714785074694791ull), p2 = s ? W(2246822519u) : W(14029467366897019727ull), p3 = s ? W(3266489917u) : W(1609587929392839161ull),
	  p4 = s ? W(668265263u) : W(9650029242287828579ull), p5 = s ? W(374761393u) : W(2870177450012600261ull);
	W v[4], seed;
	u8 buf[B];
	size_t used = 0;
	u64 total = 0;
	xx(u64 sd): seed{W(sd)} { v[0] = seed + p1 + p2; v[1] = seed + p2; v[2] = seed; v[3] = seed - p1; }
	static W rd(const u8 * p, size_t n = sizeof(W)) { W r = 0; for (size_t i = 0; i < n; ++i) r |= W(p[i]) << (8 * i); return r; }
	W rnd(W a, W l) { return std::rotl(W(a + l * p2), s ? 13 : 31) * p1; }
	void update(const u8 * p, size_t n) {
		total += n;
		while (n) {
			size_t k = std::min(n, B - used);
			std::memcpy(buf + used, p, k);
			used += k; p += k; n -= k;
			if (used == B) { for (int i = 0; i < 4; ++i) v[i] = rnd(v[i], rd(buf + i * sizeof(W))); used = 0; }
		}
	}
	bytes final() {
		W h;
		if (total >= B) {
			h = std::rotl(v[0], 1) + std::rotl(v[1], 7) + std::rotl(v[2], 12) + std::rotl(v[3], 18);
			if (!s) for (int i = 0; i < 4; ++i) h = (h ^ rnd(0, v[i])) * p1 + p4;
		} else h = seed + p5;
		h += W(total);
		const u8 * p = buf; size_t n = used;
		if (s) {
			while (n >= 4) { h = std::rotl(W(h + rd(p, 4) * p3), 17) * p4; p += 4; n -= 4; }
			while (n) { h = std::rotl(W(h + *p * p5), 11) * p1; ++p; --n; }
			h ^= h >> 15; h *= p2; h ^= h >> 13; h *= p3; h ^= h >> 16;
		} else {
			while (n >= 8) { h = std::rotl(W(h ^ rnd(0, rd(p, 8))), 27) * p1 + p4; p += 8; n -= 8; }
			if (n >= 4) { h = std::rotl(W(h ^ (rd(p, 4) * p1)), 23) * p2 + p3; p += 4; n -= 4; }
			while (n) { h = std::rotl(W(h ^ (*p * p5)), 11) * p1; ++p; --n; }
			h ^= h >> (s ? 1 : 33); h *= p2; h ^= h >> 29; h *= p3; h ^= h >> (s ? 1 : 32);
		}
		bytes r;
		for (int k = int(sizeof(W)) - 1; k >= 0; --k) r.push_back(u8(h >> (8 * k)));
		return r;
	}
};
} // namespace ref

inline char g_case[4096] = "start";
inline unsigned long g_count = 0;

inline void on_signal(int sig) {
	char b[5000];
	int n = snprintf(b, sizeof b, "FAIL %s: the program was stopped by signal %d\n", g_case, sig);
	if (write(1, b, size_t(n))) { }
	_exit(1);
}

inline void install() {
	for (int s: {SIGABRT, SIGILL, SIGSEGV, SIGBUS, SIGFPE, SIGTRAP}) signal(s, on_signal);
}

inline std::string hex(const unsigned char * p, size_t n) {
	std::string r;
	char b[4];
	for (size_t i = 0; i < n; ++i) { snprintf(b, 4, "%02x", p[i]); r += b; }
	return r;
}

struct rng {
	uint64_t s;
	uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
};

// data patterns: 0 random, 1 zeros, 2 ones, 3 bytes above 0x7f
inline void fill(std::vector<unsigned char> & v, int pattern, uint64_t seed) {
	rng r{seed};
	for (auto & x: v) {
		auto z = r();
		x = pattern == 0 ? (unsigned char)(z) : pattern == 1 ? 0 : pattern == 2 ? 0xff : (unsigned char)(z | 0x80);
	}
}

// -DCRASHES: only accesses and stops count, not what is computed
inline void fail(const std::string & exp, const std::string & got, const char * what) {
#ifdef CRASHES
	return;
#endif
	printf("FAIL %s: %s: expected %s, got %s\n", g_case, what, exp.c_str(), got.c_str());
	fflush(stdout);
	_exit(1);
}

// a hash under test: A supplies H make(seed), ref make_ref(seed), digest(H &) -> bytes, id
template <class A> struct tester {
	A a;
	// which property is being replayed: digests against the reference, digests
	// of split messages against one update, or object independence and size()
	enum what_t { digests, splits, objects } what = digests;
	using H = typename A::H;
	size_t B = A::block;

	static void up(H & h, const unsigned char * p, size_t n) {
		// exact-size copy so that sanitizers see any access outside the input
		if (n > (1u << 22)) { h.update(std::span<const std::byte>((const std::byte *)p, n)); return; }
		std::unique_ptr<unsigned char[]> c(new unsigned char[n ? n : 1]);
		if (n) std::memcpy(c.get(), p, n);
		h.update(std::span<const std::byte>(n ? (const std::byte *)c.get() : nullptr, n));
	}
	void note(uint64_t seed, int pat, uint64_t ds, const std::vector<size_t> & pieces, const char * extra = "") {
		int n = snprintf(g_case, sizeof g_case, "%s hash-seed=%llu data-pattern=%d data-seed=%llu%s pieces=", A::id, (unsigned long long)seed, pat, (unsigned long long)ds, extra);
		for (size_t k: pieces) if (n < 4000) n += snprintf(g_case + n, sizeof g_case - size_t(n), "%zu,", k);
	}
	ref::bytes expect(uint64_t seed, const unsigned char * p, size_t n) {
		auto r = a.make_ref(seed);
		r.update(p, n);
		return r.final();
	}
	void cmp(const ref::bytes & e, const ref::bytes & g, const char * what = "digest") {
		++g_count;
		if (e != g) fail(hex(e.data(), e.size()), hex(g.data(), g.size()), what);
	}
	void run(uint64_t seed, int pat, uint64_t ds, const std::vector<size_t> & pieces, const ref::bytes * known = nullptr) {
		size_t tot = 0;
		for (size_t k: pieces) tot += k;
		std::vector<unsigned char> d(tot);
		fill(d, pat, ds);
		note(seed, pat, ds, pieces);
		H h = a.make(seed);
		size_t at = 0;
		for (size_t k: pieces) { up(h, d.data() + at, k); at += k; }
		if constexpr (requires { h.size(); }) if (what == objects && h.size() != tot) fail(std::to_string(tot), std::to_string(h.size()), "size()");
		ref::bytes e;
		if (known) e = *known;
		else if (what == splits) {
			H one = a.make(seed);
			up(one, d.data(), tot);
			e = a.digest(one);
		} else e = expect(seed, d.data(), tot);
		if constexpr (A::keeps) {
			if (what != objects) {
				cmp(e, a.digest(h), what == splits ? "digest of the pieces against one update" : "digest");
				if constexpr (requires { a.direct(seed, d.data(), tot); }) if (what == digests) cmp(e, a.direct(seed, d.data(), tot), "update_and_final");
				return;
			}
			auto first = a.digest(h);
			cmp(first, a.digest(h), "digest, second final()");
			size_t more = tot < 5 ? tot : 5;
			H g = a.make(seed);
			at = 0;
			for (size_t k: pieces) { up(g, d.data() + at, k); at += k; }
			up(g, d.data(), more);
			up(h, d.data(), more);
			cmp(a.digest(g), a.digest(h), "digest after final() and further bytes");
		} else {
			cmp(e, a.digest(h), what == splits ? "digest of the pieces against one update" : "digest");
		}
	}
	void copies(uint64_t ds) {
		rng r{ds};
		size_t x = r.below(2 * B + 1), y = r.below(2 * B + 1), z = r.below(2 * B + 1);
		std::vector<unsigned char> d(x + y + z);
		fill(d, 0, ds);
		note(7, 0, ds, {x, y, z}, " copy after the first piece;");
		H h = a.make(7);
		up(h, d.data(), x);
		H c(h);
		up(h, d.data() + x, y);
		H o1 = a.make(7), o2 = a.make(7);
		up(o1, d.data(), x + y);
		up(o2, d.data(), x);
		up(o2, d.data() + x + y, z);
		auto g1 = a.digest(h);
		up(c, d.data() + x + y, z);
		H m(std::move(c));
		cmp(a.digest(o1), g1, "original continued after a copy was taken");
		cmp(a.digest(o2), a.digest(m), "copy continued");
	}
	std::vector<uint64_t> seeds() { return A::seeded ? std::vector<uint64_t>{0, 1, 0x9E3779B97F4A7C15ull, ~uint64_t(0)} : std::vector<uint64_t>{0}; }

	void grid(uint64_t ds) {
		// every fill level against every piece length up to two blocks
		for (size_t x = 0; x <= B; ++x) {
			for (size_t y = 0; y <= 2 * B + 1; ++y) run(1, 0, ds, {x, y});
		}
	}
	void sweep(uint64_t ds) {
		for (auto s: seeds()) for (int pat = 0; pat < 4; ++pat) for (size_t n = 0; n <= 3 * B + 2; ++n) run(s, pat, ds, {n});
		for (size_t n: {1000u, 4095u, 4096u, 10000u, 65535u, 65536u, 65537u, 100003u}) run(3, 0, ds, {n});
		for (size_t n: {255u, 256u, 257u, 511u, 65535u, 65536u, 65537u}) run(3, 0, ds, {1, n, B - 1, n});
	}
	void random(uint64_t ds, int count) {
		rng r{ds};
		for (int i = 0; i < count; ++i) {
			std::vector<size_t> p(r.below(7));
			for (auto & k: p) { auto z = r.below(8); k = z == 0 ? 0 : z == 1 ? B : z == 2 ? B - r.below(3) : z == 3 ? r.below(5 * B) : r.below(B); }
			run(r() & 1 ? r() : 0, int(r.below(4)), r(), p);
		}
		if (what == objects) for (int i = 0; i < count / 4 + 20; ++i) copies(r());
	}
	void history(uint64_t ds, std::vector<size_t> pieces) {
		// long histories are streamed
		size_t tot = 0;
		for (auto k: pieces) tot += k;
		if (tot < (1u << 24)) {
			for (auto s: seeds()) for (int pat = 0; pat < 4; ++pat) run(s, pat, ds, pieces);
			return;
		}
		size_t mx = 0;
		for (auto k: pieces) mx = std::max(mx, k);
		auto * p = (unsigned char *)mmap(nullptr, mx + 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { printf("note: cannot map %zu bytes\n", mx); return; }
		note(5, 1, 0, pieces);
		if (what == splits) {
			H h = a.make(5), g = a.make(5);
			for (auto k: pieces) h.update(std::span<const std::byte>((const std::byte *)p, k));
			for (size_t k = tot; k;) { size_t c = std::min<size_t>(k, 1u << 20); g.update(std::span<const std::byte>((const std::byte *)p, std::min(c, mx))); k -= std::min(c, mx); }
			cmp(a.digest(g), a.digest(h), "digest of the pieces against updates of at most 1 MiB (all-zero message)");
			munmap(p, mx + 1);
			return;
		}
		H h = a.make(5);
		auto r = a.make_ref(5);
		for (auto k: pieces) { h.update(std::span<const std::byte>((const std::byte *)p, k)); r.update(p, k); }
		if constexpr (requires { h.size(); }) if (what == objects && h.size() != tot) fail(std::to_string(tot), std::to_string(h.size()), "size()");
		auto e = r.final();
		cmp(e, a.digest(h), "digest (all-zero message)");
		if (pieces.size() == 1) if constexpr (requires { a.direct(5, p, tot); }) cmp(e, a.direct(5, p, tot), "update_and_final");
		munmap(p, mx + 1);
	}
};

template <class A> int battery(int argc, char ** argv, const char * id) {
	if (std::string_view(argv[1]) != id) return 0;
	tester<A> t;
	std::string_view what = argv[2], mode = argv[3];
	t.what = what == "splits" ? tester<A>::splits : what == "objects" ? tester<A>::objects : tester<A>::digests;
	uint64_t ds = strtoull(argv[4], nullptr, 10);
	if constexpr (requires { t.a.streams(ds); }) if (mode == "all" && t.what == tester<A>::digests) t.a.streams(ds);
	if (mode == "all") { t.sweep(ds); t.grid(ds); t.random(ds, 3000); }
	if (mode == "small") { t.sweep(ds); t.random(ds, 300); }
	if (mode == "long") {
		const size_t G = size_t(1) << 29;
		t.history(ds, {G + 7});
		t.history(ds, {3, G + 4});
		t.history(ds, {8 * G + 9});
		t.history(ds, {3, 8 * G + 9});
		t.history(ds, {8 * G - 1});
	}
	if constexpr (requires { t.a.streams(ds); }) if (mode == "stream") {
		std::vector<size_t> p;
		for (int i = 5; i < argc; ++i) p.push_back(strtoull(argv[i], nullptr, 10));
		if (!p.empty()) t.a.streams(ds, p);
	}
	if (mode == "history") {
		std::vector<size_t> p;
		for (int i = 5; i < argc; ++i) p.push_back(strtoull(argv[i], nullptr, 10));
		t.history(ds, p);
	}
	printf("OK %s %lu\n", id, g_count);
	return 0;
}
