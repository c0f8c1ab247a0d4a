// usage: hash_driver <id> <digests|splits|objects> <all|small|long|history> <seed> [piece sizes]
#ifndef SINGLE
#include <cthash/cthash.hpp>
#else
#include <cthash-single-header.hpp>
#endif
#include "battery.hpp"

template <class V> ref::bytes value_bytes(const V & v) {
	auto * p = (const unsigned char *)v.data();
	return ref::bytes(p, p + v.size());
}

#define PLAIN(ID, TYPE, BLOCK, REF) struct A_##ID { \
	using H = cthash::TYPE; \
	static constexpr const char * id = #ID; \
	static constexpr size_t block = BLOCK; \
	static constexpr bool seeded = false, keeps = false; \
	H make(uint64_t) { return H{}; } \
	auto make_ref(uint64_t) { return REF; } \
	ref::bytes digest(H & h) { return value_bytes(h.final()); } \
};
PLAIN(sha224, sha224, 64, (ref::sha2<uint32_t>(ref::IV224, 28)))
PLAIN(sha256, sha256, 64, (ref::sha2<uint32_t>(ref::IV256, 32)))
PLAIN(sha384, sha384, 128, (ref::sha2<uint64_t>(ref::IV384, 48)))
PLAIN(sha512, sha512, 128, (ref::sha2<uint64_t>(ref::IV512, 64)))
PLAIN(sha3_224, sha3_224, 144, ref::keccak(144, 6, 28))
PLAIN(sha3_256, sha3_256, 136, ref::keccak(136, 6, 32))
PLAIN(sha3_384, sha3_384, 104, ref::keccak(104, 6, 48))
PLAIN(sha3_512, sha3_512, 72, ref::keccak(72, 6, 64))

template <class T, size_t Rate, const auto & Id> struct A_shake {
	using H = T;
	static constexpr const char * id = Id;
	static constexpr size_t block = Rate;
	static constexpr bool seeded = false, keeps = false;
	static constexpr size_t OUT = 2 * Rate + 3;
	H make(uint64_t) { return H{}; }
	auto make_ref(uint64_t) { return ref::keccak(Rate, 0x1f, OUT); }
	template <size_t N> static void other(const H & h, const ref::bytes & full) {
		H c(h);
		auto v = value_bytes(c.template final<N * 8>());
		if (v.size() != N || !std::equal(v.begin(), v.end(), full.begin())) fail(hex(full.data(), N), hex(v.data(), v.size()), "prefix of the output stream");
	}
	ref::bytes digest(H & h) {
		H c(h);
		auto r = value_bytes(h.template final<OUT * 8>());
		other<1>(c, r); other<7>(c, r); other<8>(c, r); other<9>(c, r); other<16>(c, r); other<20>(c, r); other<32>(c, r); other<64>(c, r);
		other<Rate - 1>(c, r); other<Rate>(c, r); other<Rate + 1>(c, r); other<Rate + 8>(c, r);
		return r;
	}
	// output of any length, by the functions final() is made of
	void streams(uint64_t ds, std::vector<size_t> ls = {}) {
		size_t mx = 1u << 20;
		for (size_t n: ls) mx = std::max(mx, n);
		if (ls.empty())
		for (size_t n = 1; n <= 6 * Rate + 9; ++n) ls.push_back(n);
		if (ls.size() > 100)
		for (size_t b: {1u << 11, 1u << 12, 1u << 13, 1u << 16, 1u << 17, 1u << 20}) for (size_t k: {0u, 1u, 7u, 8u, 9u, 16u, unsigned(Rate)}) { ls.push_back(b + k); ls.push_back(b - k); }
		std::vector<unsigned char> d(ds % 300 + 1);
		fill(d, 0, ds);
		auto full = ref::keccak(Rate, 0x1f, mx + 2 * Rate);
		full.update(d.data(), d.size());
		auto all = full.final();
		for (size_t n: ls) {
			snprintf(g_case, sizeof g_case, "%s data-pattern=0 data-seed=%llu pieces=%zu output of %zu bytes", id, (unsigned long long)ds, d.size(), n);
			H h{};
			h.update(std::span<const std::byte>((const std::byte *)d.data(), d.size()));
			std::vector<unsigned char> out(n);
			h.final_absorb();
			h.squeeze(std::span<std::byte>((std::byte *)out.data(), n));
			++g_count;
			size_t i = std::mismatch(out.begin(), out.end(), all.begin()).first - out.begin();
			if (i != n) fail(hex(all.data() + i, std::min<size_t>(n - i, 32)) + " at byte " + std::to_string(i), hex(out.data() + i, std::min<size_t>(n - i, 32)), "output stream");
		}
	}
};
constexpr char s128[] = "shake128", s256[] = "shake256";

template <size_t T, const auto & Id> struct A_t {
	using H = cthash::sha512t<T>;
	static constexpr const char * id = Id;
	static constexpr size_t block = 128;
	static constexpr bool seeded = false, keeps = false;
	H make(uint64_t) { return H{}; }
	auto make_ref(uint64_t) { return ref::sha512t(T); }
	ref::bytes digest(H & h) { return value_bytes(h.final()); }
};
#ifdef TT
constexpr char s512t[] = "sha512t";
#endif

#define XX(ID, TYPE, W) struct A_##ID { \
	using H = cthash::TYPE; \
	static constexpr const char * id = #ID; \
	static constexpr size_t block = sizeof(W) * 4; \
	static constexpr bool seeded = true, keeps = true; \
	H make(uint64_t s) { return H{W(s)}; } \
	auto make_ref(uint64_t s) { return ref::xx<W>(s); } \
	ref::bytes digest(H & h) { return value_bytes(h.final()); } \
	ref::bytes direct(uint64_t s, const unsigned char * p, size_t n) { H h{W(s)}; return value_bytes(h.update_and_final(std::span<const std::byte>((const std::byte *)p, n))); } \
};
XX(xx32, xxhash32, uint32_t)
XX(xx64, xxhash64, uint64_t)

int main(int argc, char ** argv) {
	install();
	if (argc < 5) return 2;
#ifdef TT
	return battery<A_t<TT, s512t>>(argc, argv, "sha512t");
#else
	battery<A_sha224>(argc, argv, "sha224");
	battery<A_sha256>(argc, argv, "sha256");
	battery<A_sha384>(argc, argv, "sha384");
	battery<A_sha512>(argc, argv, "sha512");
	battery<A_sha3_224>(argc, argv, "sha3_224");
	battery<A_sha3_256>(argc, argv, "sha3_256");
	battery<A_sha3_384>(argc, argv, "sha3_384");
	battery<A_sha3_512>(argc, argv, "sha3_512");
	battery<A_shake<cthash::shake128, 168, s128>>(argc, argv, "shake128");
	battery<A_shake<cthash::shake256, 136, s256>>(argc, argv, "shake256");
	battery<A_xx32>(argc, argv, "xx32");
	battery<A_xx64>(argc, argv, "xx64");
	return 0;
#endif
}
