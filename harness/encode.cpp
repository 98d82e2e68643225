#include "enc.hpp"
#include <deque>
#include <string>
#include <vector>

namespace {
using namespace cthash;
constexpr size_t MAXOUT = 8 * 40 + 8;

// walk a view with its own iterators
template <typename C, typename V> size_t walk(V & v, C * out, size_t cap) {
	size_t k = 0;
	for (auto it = v.begin(); !(it == v.end()); ++it) { if (k == cap) return cap + 1; out[k++] = *it; }
	return k;
}
template <typename E, typename C, typename R> void compare(R && r, const u8 * raw, size_t n) {
	static C got[MAXOUT], want[MAXOUT];
	size_t wn = ref::encode(def<E>::r, raw, n, want);
	auto view = std::forward<R>(r) | encode_to<E, C>;
	size_t gn = walk(view, got, MAXOUT);
	sym_check(gn == wn, "number of characters");
	if (gn == wn) sym_check_eq(got, want, wn * sizeof(C), "encoded text");
	sym_check(view.size() == wn, "size() is the number of characters");
	sym_out(got, (gn <= MAXOUT ? gn : 0) * sizeof(C), "text");
}
// every input length 0..hi, through a span
template <typename E, typename C = char> void lengths(uint64_t hi) {
	static u8 in[48];
	size_t n = sym_range("n", 0, hi);
	sym_shard();
	sym_bytes(in, n, "in");
	compare<E, C>(std::span<const std::byte>((const std::byte *)in, n), in, n);
	sym_reach("end");
}
// the container the bytes are in makes no difference
template <typename E> void containers() {
	static u8 in[48];
	size_t n = sym_range("n", 0, 7);
	uint64_t k = sym_range("k", 0, 8);
	sym_shard();
	sym_bytes(in, n, "in");
	const char * c = (const char *)in;
	switch (k) {
	case 0: compare<E, char>(std::string_view(c, n), in, n); break;
	case 1: { std::vector<u8> v(in, in + n); compare<E, char>(v, in, n); break; }
	case 2: { const std::string v(c, n); compare<E, char>(v, in, n); break; }
	case 3: { std::vector<signed char> v(in, in + n); compare<E, char>(std::move(v), in, n); break; }
	case 4: compare<E, char16_t>(std::u8string_view((const char8_t *)c, n), in, n); break;
	case 5: compare<E, wchar_t>(std::span<u8>(in, n), in, n); break;
	case 6: compare<E, char32_t>(std::span<const char>(c, n), in, n); break;
	case 7: compare<E, char8_t>(std::span<const u8>(in, n), in, n); break;
	case 8: { std::array<std::byte, 7> a{}; for (size_t i = 0; i < n; i++) a[i] = (std::byte)in[i]; u8 z[7] = {}; for (size_t i = 0; i < n; i++) z[i] = in[i]; compare<E, char>(a, z, 7); break; }
	}
	sym_reach("end");
}
// to_string() and the post-increment iterator
template <typename E> void strings() {
	static u8 in[48];
	static char want[MAXOUT], got[MAXOUT];
	size_t n = sym_range("n", 0, 11);
	sym_shard();
	sym_bytes(in, n, "in");
	size_t wn = ref::encode(def<E>::r, in, n, want);
	const auto view = std::span<const u8>(in, n) | encode_to<E>;
	size_t k = 0;
	auto it = view.begin();
	while (it != view.end() && k < MAXOUT) { auto old = it++; got[k++] = *old; }
	sym_check(k == wn, "number of characters (post-increment)");
	if (k == wn) sym_check_eq(got, want, wn, "encoded text (post-increment)");
	if constexpr (requires { view.to_string(); }) {
		std::string s = view.to_string();
		sym_check(s.size() == wn, "to_string() length");
		if (s.size() == wn) sym_check_eq(s.data(), want, wn, "to_string() text");
	}
	sym_out(got, k, "text");
	sym_reach("end");
}
// the text determines the bytes: decode it by the alphabet alone and get the input back
template <typename E> void decodable(uint64_t hi) {
	static u8 in[48], back[48];
	static char got[MAXOUT];
	size_t n = sym_range("n", 0, hi);
	sym_shard();
	sym_bytes(in, n, "in");
	auto view = std::span<const u8>(in, n) | encode_to<E>;
	size_t k = walk(view, got, MAXOUT);
	sym_check(k <= MAXOUT && k * def<E>::r.bits >= n * 8, "enough characters");
	constexpr auto e = def<E>::r;
	size_t used = ref::groups(n, e.bits);
	unsigned acc = 0, have = 0;
	size_t o = 0;
	bool ok = true;
	for (size_t g = 0; g < used && g < k; g++) {
		unsigned v = ref::value_of(e, (u8)got[g]);
		ok = ok & (v < (1u << e.bits));
		acc = acc << e.bits | v;
		have += e.bits;
		if (have >= 8 && o < n) { back[o++] = (u8)(acc >> (have - 8)); have -= 8; }
	}
	sym_check(ok, "every character is in the alphabet");
	sym_check(o == n, "all bytes recovered");
	sym_check_eq(back, in, n, "decoding returns the input");
	for (size_t g = used; g < k; g++) sym_check(got[g] == '=', "the rest is padding");
	if (!e.pad) sym_check(k == used, "nothing after the last group");
	sym_out(got, k, "text");
	sym_reach("end");
}
// two inputs of the same length give the same text only if they are equal; both walks of one view agree
template <typename E> void injective(uint64_t hi) {
	static u8 x[16], y[16];
	static char a[MAXOUT], b[MAXOUT];
	size_t n = sym_range("n", 1, hi);
	sym_shard();
	sym_bytes(x, n, "x"); sym_bytes(y, n, "y");
	auto vx = std::span<const u8>(x, n) | encode_to<E>;
	auto vy = std::span<const u8>(y, n) | encode_to<E>;
	size_t k = walk(vx, a, MAXOUT), l = walk(vy, b, MAXOUT);
	sym_check(k == l, "same length");
	bool same = true, eq = true;
	for (size_t i = 0; i < k; i++) same = same & (a[i] == b[i]);
	for (size_t i = 0; i < n; i++) eq = eq & (x[i] == y[i]);
	sym_check(!same | eq, "equal text only for equal input");
	size_t m = walk(vx, b, MAXOUT);
	sym_check(m == k, "second walk has the same length");
	sym_check_eq(b, a, k, "second walk gives the same text");
	sym_out(a, k, "text");
	sym_reach("end");
}
// ------------------------------------------------------------------ chunk_of_bits: any width, with and without padding, wider inputs
template <size_t Bits, bool Pad, typename T> void chunks(size_t n) {
	static T in[24];
	static u8 raw[24 * sizeof(T)];
	sym_bytes(in, n * sizeof(T), "in");
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < sizeof(T); k++) raw[i * sizeof(T) + k] = (u8)((std::make_unsigned_t<T>)in[i] >> (8 * (sizeof(T) - 1 - k)));
	size_t bytes = n * sizeof(T), real = (bytes * 8 + Bits - 1) / Bits;
	constexpr size_t L = std::lcm(Bits, sizeof(T) * 8);
	size_t total = Pad ? (n * sizeof(T) * 8 + L - 1) / L * (L / Bits) : real;
	const auto view = std::span<const T>(in, n) | chunk_of_bits<Bits, Pad>;
	sym_check(view.size() == total, "size()");
	size_t g = 0;
	for (auto it = view.begin(); it != view.end() && g <= total; ++it, ++g) {
		const auto c = *it;
		if (g < real) {
			uint64_t v = 0;
			for (size_t k = 0; k < Bits; k++) { size_t b = g * Bits + k; v = v << 1 | (b / 8 < bytes ? raw[b / 8] >> (7 - b % 8) & 1u : 0u); }
			sym_check((uint64_t)c.value == v, "chunk value");
			size_t missing = (g + 1) * Bits > bytes * 8 ? (g + 1) * Bits - bytes * 8 : 0;
			sym_check(c.missing_bits == missing, "missing bits");
			sym_check(!c.is_padding(), "a chunk with input bits is not padding");
		} else sym_check(c.is_padding(), "padding chunk");
		uint64_t o = c.value;
		sym_out(&o, 8, "chunk");
	}
	sym_check(g == total, "number of chunks");
	sym_reach("end");
}
template <typename T, bool Pad, size_t... B> void widths(uint64_t hi, std::index_sequence<B...>) {
	size_t n = sym_range("n", 0, hi);
	uint64_t k = sym_range("k", 0, sizeof...(B) - 1);
	sym_shard();
	size_t i = 0;
	((i++ == k ? (chunks<B, Pad, T>(n), 0) : 0), ...);
}
}
#define ENC(X, L) \
	SYM_ENTRY(enc_##X##_lengths) { lengths<encoding::X>(L); } \
	SYM_ENTRY(enc_##X##_lengths_all) { lengths<encoding::X>(40); } \
	SYM_ENTRY(enc_##X##_wide) { lengths<encoding::X, char32_t>(6); } \
	SYM_ENTRY(enc_##X##_containers) { containers<encoding::X>(); } \
	SYM_ENTRY(enc_##X##_strings) { strings<encoding::X>(); } \
	SYM_ENTRY(enc_##X##_decode) { decodable<encoding::X>(6); } \
	SYM_ENTRY(enc_##X##_decode_all) { decodable<encoding::X>(20); } \
	SYM_ENTRY(enc_##X##_injective) { injective<encoding::X>(6); }
ENC(base64, 20) ENC(base64_no_padding, 20) ENC(base64url, 20) ENC(base32, 20) ENC(base32_no_padding, 20) ENC(z_base32, 20) ENC(base16, 20) ENC(base16_uppercase, 20) ENC(base8, 14) ENC(base4, 12) ENC(base2, 8)
SYM_ENTRY(chunk_u8) { widths<uint8_t, false>(9, std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8>{}); }
SYM_ENTRY(chunk_u8_pad) { widths<uint8_t, true>(9, std::index_sequence<2, 3, 4, 5, 6, 7, 8>{}); }
SYM_ENTRY(chunk_wide_out) { widths<uint8_t, false>(9, std::index_sequence<10, 12, 14, 16, 20, 24, 28, 40, 48, 56>{}); }
SYM_ENTRY(chunk_wide_out_pad) { widths<uint8_t, true>(9, std::index_sequence<10, 12, 14, 16, 20, 24>{}); }
SYM_ENTRY(chunk_i8) { widths<signed char, false>(7, std::index_sequence<1, 3, 5, 6, 8>{}); }
SYM_ENTRY(chunk_u16) { widths<uint16_t, false>(5, std::index_sequence<1, 2, 3, 4, 8, 16>{}); }
SYM_ENTRY(chunk_u16_pad) { widths<uint16_t, true>(5, std::index_sequence<2, 3, 4, 8>{}); }
SYM_ENTRY(chunk_i16) { widths<int16_t, false>(5, std::index_sequence<3, 4, 8>{}); }
SYM_ENTRY(chunk_u32) { widths<uint32_t, false>(4, std::index_sequence<1, 2, 4, 8, 16>{}); }
SYM_ENTRY(chunk_i32) { widths<int32_t, true>(4, std::index_sequence<2, 4, 8>{}); }
