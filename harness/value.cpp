#include "inc.hpp"
#include <string>
#include <set>

namespace {
using namespace cthash;
inline u8 hexval(uint32_t c) { return (u8)((c & 15) + 9 * (unsigned)(c >= 'A')); } // of a hexadecimal digit
inline bool ishex(uint32_t c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
template <size_t N> void fill(hash_value<N> & v, const u8 * b) { for (size_t i = 0; i < N; i++) v[i] = (std::byte)b[i]; }

// ------------------------------------------------------------------ hexadecimal text
// every text of 2N hexadecimal digits, either case, any character type
template <typename V, size_t N, typename C> void parse_text() {
	sym_shard();
	C t[2 * N + 1];
	u8 raw[2 * N], want[N];
	sym_bytes(raw, 2 * N, "text");
	for (size_t i = 0; i < 2 * N; i++) { sym_assume(ishex(raw[i])); t[i] = (C)raw[i]; }
	t[2 * N] = 0;
	for (size_t i = 0; i < N; i++) want[i] = (u8)(hexval(raw[2 * i]) << 4 | hexval(raw[2 * i + 1]));
	V v(t);
	sym_check_eq(v.data(), want, N, "value of hexadecimal text (array)");
	fixed_string<C, 2 * N> f{nullptr};
	for (size_t i = 0; i < 2 * N; i++) f[i] = t[i];
	V w(f);
	sym_check_eq(w.data(), want, N, "value of hexadecimal text (fixed_string)");
	sym_check(v == w, "both are equal");
	sym_out(v.data(), N, "value");
	sym_reach("end");
}
// printing and parsing give the value back; the text is 2N lower-case digits
template <typename V, size_t N, typename C> void round_trip() {
	sym_shard();
	u8 b[N];
	sym_bytes(b, N, "value");
	V v{};
	fill<N>(v, b);
	auto f = to_fixed_string<encoding::hexdec, C>(v);
	sym_check(f.size() == 2 * N, "text length");
	for (size_t i = 0; i < N; i++) {
		sym_check(f[2 * i] == (C)"0123456789abcdef"[b[i] >> 4], "high digit");
		sym_check(f[2 * i + 1] == (C)"0123456789abcdef"[b[i] & 15], "low digit");
	}
	V w(f);
	sym_check_eq(w.data(), b, N, "parsed text is the value");
	auto s = to_string<encoding::hexdec, C>(v);
	sym_check(s.size() == 2 * N, "to_string length");
	if (s.size() == 2 * N) sym_check_eq(s.data(), f.data(), 2 * N * sizeof(C), "to_string and to_fixed_string agree");
	auto up = to_fixed_string<encoding::base16_uppercase, C>(v);
	V x(up);
	sym_check_eq(x.data(), b, N, "upper-case text parses to the same value");
	sym_out(f.data(), 2 * N * sizeof(C), "text");
	sym_reach("end");
}
// ------------------------------------------------------------------ order
template <typename V, size_t N> void order() {
	sym_shard();
	u8 p[N], q[N];
	sym_bytes(p, N, "p"); sym_bytes(q, N, "q");
	V a{}, b{};
	fill<N>(a, p); fill<N>(b, q);
	int want = 0; // lexicographic on unsigned bytes
	bool same = true;
	for (size_t i = N; i-- > 0;) { want = p[i] == q[i] ? want : p[i] < q[i] ? -1 : 1; same = same & (p[i] == q[i]); }
	bool eq = a == b;
	sym_check(eq == same, "== is bytewise equality");
	sym_check((a != b) == !same, "!=");
	auto c = a <=> b;
	sym_check((c < 0) == (want < 0), "less is lexicographic");
	sym_check((c > 0) == (want > 0), "greater is lexicographic");
	sym_check((c == 0) == (want == 0), "equivalent only when equal");
	sym_check((a < b) == (want < 0), "operator<");
	sym_check((a <= b) == (want <= 0), "operator<=");
	auto d = b <=> a;
	sym_check((d > 0) == (c < 0) && (d < 0) == (c > 0), "antisymmetric");
	signed char o[2] = {(signed char)(c < 0 ? -1 : c > 0 ? 1 : 0), (signed char)eq};
	sym_out(o, 2, "order");
	sym_reach("end");
}
template <typename V, size_t N> void transitive() {
	sym_shard();
	u8 p[N], q[N], r[N];
	sym_bytes(p, N, "p"); sym_bytes(q, N, "q"); sym_bytes(r, N, "r");
	V a{}, b{}, c{};
	fill<N>(a, p); fill<N>(b, q); fill<N>(c, r);
	bool ab = a < b, bc = b < c, ac = a < c;
	sym_check(!(ab & bc) | ac, "transitive");
	sym_check(!(a < a), "irreflexive");
	u8 o[3] = {ab, bc, ac};
	sym_out(o, 3, "order");
	sym_reach("end");
}
// SHAKE values of different length: compared on the common prefix
template <template <size_t> class S, size_t A, size_t B> void shake_pair() {
	u8 p[A / 8], q[B / 8];
	sym_bytes(p, A / 8, "p"); sym_bytes(q, B / 8, "q");
	S<A> a{}; S<B> b{};
	fill<A / 8>(a, p); fill<B / 8>(b, q);
	constexpr size_t N = (A < B ? A : B) / 8;
	int want = 0;
	bool same = true;
	for (size_t i = N; i-- > 0;) { want = p[i] == q[i] ? want : p[i] < q[i] ? -1 : 1; same = same & (p[i] == q[i]); }
	bool eq = a == b, qe = b == a;
	sym_check(eq == same, "equal exactly when the common prefix is");
	sym_check(qe == same, "== is symmetric");
	auto c = a <=> b;
	auto d = b <=> a;
	sym_check((c < 0) == (want < 0) && (c > 0) == (want > 0), "order of the common prefix");
	sym_check((d > 0) == (want < 0) && (d < 0) == (want > 0), "order is antisymmetric");
	u8 o[1] = {(u8)eq};
	sym_out(o, 1, "eq");
	sym_reach("end");
}
template <template <size_t> class S> void shake_order() {
	uint64_t k = sym_range("k", 0, 6);
	sym_shard();
	switch (k) {
	case 0: return shake_pair<S, 8, 16>();
	case 1: return shake_pair<S, 128, 64>();
	case 2: return shake_pair<S, 24, 256>();
	case 3: return shake_pair<S, 256, 512>();
	case 4: return shake_pair<S, 72, 80>();
	case 5: return shake_pair<S, 32, 40>();
	case 6: return shake_pair<S, 1024, 136>();
	}
}
// ------------------------------------------------------------------ prefix and suffix
template <typename V, size_t N, size_t K> void affix() {
	u8 b[N];
	sym_bytes(b, N, "value");
	V v{};
	fill<N>(v, b);
	const V & cv = v;
	auto p = cv.template prefix<K>();
	auto s = cv.template suffix<K>();
	static_assert(sizeof(p) == (K ? K : 1) || K == 0);
	sym_check_eq(p.data(), b, K, "first bytes");
	sym_check_eq(s.data(), b + (N - K), K, "last bytes");
	sym_check_eq(v.data(), b, N, "the value itself is unchanged");
	sym_out(p.data(), K, "prefix"); sym_out(s.data(), K, "suffix");
	sym_reach("end");
}
template <typename V, size_t N, size_t... K> void affixes(std::index_sequence<K...>) {
	uint64_t k = sym_range("k", 0, sizeof...(K) - 1);
	sym_shard();
	((K == k ? (affix<V, N, K + 1>(), 0) : 0), ...);
}
// ------------------------------------------------------------------ default construction, copies, compare with prefix
template <typename V, size_t N> void basics() {
	sym_shard();
	u8 zero[N] = {}, b[N];
	V v{};
	sym_check_eq(v.data(), zero, N, "a new value is all zero");
	sym_check(v.size() == N, "size");
	sym_bytes(b, N, "value");
	fill<N>(v, b);
	V w(v);
	sym_check_eq(w.data(), b, N, "copy");
	V x{};
	x = v;
	sym_check_eq(x.data(), b, N, "assignment");
	std::array<std::byte, N> raw;
	for (size_t i = 0; i < N; i++) raw[i] = (std::byte)b[i];
	hash_value<N> h(std::move(raw));
	sym_check_eq(h.data(), b, N, "from an array of bytes");
	sym_out(x.data(), N, "value");
	sym_reach("end");
}
using T32 = tagged_hash_value<sha256_config>;
using T64 = xxhash64_value;
}
#define HEX(N) \
	SYM_ENTRY(hex_parse_##N) { parse_text<hash_value<N>, N, char>(); } \
	SYM_ENTRY(hex_round_##N) { round_trip<hash_value<N>, N, char>(); }
HEX(1) HEX(2) HEX(4) HEX(8) HEX(20) HEX(28) HEX(32) HEX(48) HEX(64)
#define HEXC(C) \
	SYM_ENTRY(hex_parse_##C) { parse_text<hash_value<5>, 5, C>(); } \
	SYM_ENTRY(hex_round_##C) { round_trip<hash_value<5>, 5, C>(); }
HEXC(char8_t) HEXC(char16_t) HEXC(char32_t) HEXC(wchar_t)
SYM_ENTRY(hex_parse_tagged) { parse_text<sha512_value, 64, char>(); }
SYM_ENTRY(hex_round_tagged) { round_trip<sha512_value, 64, char>(); }
SYM_ENTRY(hex_parse_xxh64) { parse_text<xxhash64_value, 8, char>(); }
SYM_ENTRY(hex_round_sha3) { round_trip<sha3_224_value, 28, char>(); }
SYM_ENTRY(hex_parse_shake) { parse_text<shake128_value<88>, 11, char>(); }
SYM_ENTRY(hex_round_shake) { round_trip<shake256_value<96>, 12, char>(); }
#define ORD(N) \
	SYM_ENTRY(order_##N) { order<hash_value<N>, N>(); } \
	SYM_ENTRY(basics_##N) { basics<hash_value<N>, N>(); } \
	SYM_ENTRY(affix_##N) { affixes<hash_value<N>, N>(std::make_index_sequence<N>{}); }
ORD(1) ORD(2) ORD(4) ORD(8) ORD(20) ORD(28) ORD(32) ORD(48) ORD(64)
SYM_ENTRY(order_tagged) { order<T32, 32>(); }
SYM_ENTRY(order_xxh64) { order<T64, 8>(); }
SYM_ENTRY(order_sha3) { order<sha3_512_value, 64>(); }
SYM_ENTRY(order_shake) { order<shake128_value<128>, 16>(); }
SYM_ENTRY(affix_tagged) { affixes<T32, 32>(std::make_index_sequence<32>{}); }
SYM_ENTRY(basics_tagged) { basics<T32, 32>(); }
SYM_ENTRY(transitive_3) { transitive<hash_value<3>, 3>(); }
SYM_ENTRY(transitive_8) { transitive<hash_value<8>, 8>(); }
SYM_ENTRY(shake128_order) { shake_order<shake128_value>(); }
SYM_ENTRY(shake256_order) { shake_order<shake256_value>(); }
