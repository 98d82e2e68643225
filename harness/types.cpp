#include "spec.hpp"
#include <string>
#include <vector>

namespace {
template <typename H> void same(H & h, const u8 * want, const char * label) {
	auto d = spec<H>::fin(h);
	sym_check_eq(d.data(), want, spec<H>::out, label);
}
template <typename H, typename X> void give(const X & x, const u8 * want, const char * label) {
	if constexpr (requires(H g) { g.update(x); }) {
		H h{};
		H & r = h.update(x);
		sym_check(&r == &h, "update() returns the hasher");
		same(h, want, label);
		sym_reach(label);
	}
	if constexpr (requires { simple<H>(x); }) {
		auto d = simple<H>(x);
		if constexpr (requires { d.data(); }) sym_check_eq(d.data(), want, spec<H>::out, label);
	}
	if constexpr (requires(H g) { g.update_and_final(x); }) {
		auto d = H{}.update_and_final(x);
		sym_check_eq(d.data(), want, spec<H>::out, label);
	}
}
// the same n bytes, in every form update() takes; a literal's terminating NUL is not part of it, embedded NULs are
template <typename H, size_t N> void forms() {
	static u8 m[N + 1];
	u8 want[spec<H>::out];
	sym_bytes(m, N, "msg");
	spec<H>::want(m, N, want);
	const std::byte * b = (const std::byte *)m; const char * c = (const char *)m; const char8_t * c8 = (const char8_t *)m; const signed char * sc = (const signed char *)m;
	give<H>(std::span<const std::byte>(b, N), want, "span of byte");
	give<H>(std::span<const std::byte, N>(b, N), want, "fixed span of byte");
	give<H>(std::span<const u8>(m, N), want, "span of unsigned char");
	give<H>(std::span<u8>(m, N), want, "span of non-const unsigned char");
	give<H>(std::span<const char>(c, N), want, "span of char");
	give<H>(std::span<const char8_t>(c8, N), want, "span of char8_t");
	give<H>(std::span<const int8_t>((const int8_t *)sc, N), want, "span of int8_t");
	give<H>(std::string_view(c, N), want, "string_view");
	give<H>(std::u8string_view(c8, N), want, "u8string_view");
	give<H>(std::string(c, N), want, "string");
	give<H>(std::vector<std::byte>(b, b + N), want, "vector of byte");
	give<H>(std::vector<char>(c, c + N), want, "vector of char");
	give<H>(std::vector<u8>(m, m + N), want, "vector of unsigned char");
	if constexpr (N > 0) {
		std::array<std::byte, N> ab; std::array<char, N> ac; std::array<u8, N> au;
		for (size_t i = 0; i < N; i++) { ab[i] = b[i]; ac[i] = c[i]; au[i] = m[i]; }
		give<H>(ab, want, "array of byte");
		give<H>(ac, want, "array of char");
		give<H>(au, want, "array of unsigned char");
	}
	char lit[N + 1]; char8_t lit8[N + 1];
	for (size_t i = 0; i < N; i++) { lit[i] = c[i]; lit8[i] = c8[i]; }
	lit[N] = 0; lit8[N] = 0;
	give<H>(lit, want, "string literal");
	give<H>(lit8, want, "u8 string literal");
	sym_out(want, spec<H>::out, "digest");
	sym_reach("end");
}
template <typename H> void all_forms() {
	constexpr size_t B = spec<H>::block;
	uint64_t k = sym_range("k", 0, 6);
	sym_shard();
	switch (k) {
	case 0: return forms<H, 0>();
	case 1: return forms<H, 1>();
	case 2: return forms<H, 4>();
	case 3: return forms<H, 13>();
	case 4: return forms<H, B - 1>();
	case 5: return forms<H, B>();
	case 6: return forms<H, B + 9>();
	}
}
// two pieces of different type; the second starts at any position of the block
template <typename H> void mixed() {
	constexpr size_t B = spec<H>::block;
	static const size_t A[] = {1, 2, 3, 4, 5, 6, 7, 8, B - 3, B - 1, B + 5};
	static const size_t C[] = {1, 5, 7, 8, B - 2, B, B + 3};
	static u8 m[2 * B + 32];
	size_t a = A[sym_range("a", 0, 10)], b = C[sym_range("b", 0, 6)];
	sym_shard();
	u8 want[spec<H>::out];
	sym_bytes(m, a + b, "msg");
	spec<H>::want(m, a + b, want);
	H h{}, g{}, f{};
	h.update(std::string_view((const char *)m, a));
	h.update(std::span<const std::byte>((const std::byte *)m + a, b));
	same(h, want, "chars then bytes");
	g.update(std::span<const std::byte>((const std::byte *)m, a));
	g.update(std::u8string_view((const char8_t *)m + a, b));
	same(g, want, "bytes then char8_t");
	f.update(std::u8string_view((const char8_t *)m, a));
	f.update(std::string_view((const char *)m + a, b));
	same(f, want, "char8_t then chars");
	sym_out(want, spec<H>::out, "digest");
	sym_reach("end");
}
}
#define FORMS(H) SYM_ENTRY(forms_##H) { all_forms<H>(); } SYM_ENTRY(mixed_##H) { mixed<H>(); }
FORMS(sha224) FORMS(sha256) FORMS(sha384) FORMS(sha512) FORMS(sha512_224) FORMS(sha512_256) FORMS(sha3_224) FORMS(sha3_256) FORMS(sha3_384) FORMS(sha3_512) FORMS(shake128) FORMS(shake256)
SYM_ENTRY(forms_xxh32) { all_forms<xxhash32>(); }
SYM_ENTRY(forms_xxh64) { all_forms<xxhash64>(); }
