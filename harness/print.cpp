#include "enc.hpp"
#include <format>
#include <iterator>
#include <ostream>
#include <streambuf>
#include <string>

namespace {
using namespace cthash;
template <size_t N> void fill(hash_value<N> & v, const u8 * b) { for (size_t i = 0; i < N; i++) v[i] = (std::byte)b[i]; }
constexpr size_t MAXOUT = 8 * 64 + 8;
// collects what an ostream writes
template <typename C> struct sink: std::basic_streambuf<C> {
	C text[MAXOUT]; size_t n = 0;
	using I = typename std::char_traits<C>::int_type;
	I overflow(I c) override { if (n < MAXOUT) text[n] = (C)c; n++; return c; }
	std::streamsize xsputn(const C * p, std::streamsize k) override { for (std::streamsize i = 0; i < k; i++) { if (n < MAXOUT) text[n] = p[i]; n++; } return k; }
};
template <typename C> struct expect { C text[MAXOUT]; size_t n; };
template <typename C, typename T> void same(const T * p, size_t n, const expect<C> & e, const char * label) {
	sym_check(n == e.n, label);
	if (n == e.n) sym_check_eq(p, e.text, n * sizeof(C), label);
}
template <typename C, typename F> void streamed(const expect<C> & e, const char * label, F && f) {
	sink<C> s;
	std::basic_ostream<C> os(&s);
	f(os);
	same(s.text, s.n, e, label);
	sym_check(os.good(), "the stream stays good");
}
// every way of writing one value down with one encoding
template <typename E, typename C, typename V, size_t N> void ways() {
	static u8 b[N];
	static expect<C> e;
	sym_bytes(b, N, "value");
	V v{};
	fill<N>(v, b);
	e.n = ref::encode(def<E>::r, b, N, e.text);
	auto s = to_string<E, C>(v);
	same(s.data(), s.size(), e, "to_string");
	auto f = to_fixed_string<E, C>(v);
	same(f.data(), f.size(), e, "to_fixed_string");
	sym_check(f == std::basic_string_view<C>(e.text, e.n), "fixed_string equals the text");
#ifndef USE_SINGLE_HEADER // whose views have neither
	const auto view = v | encode_to<E, C>;
	auto t = view.to_string();
	same(t.data(), t.size(), e, "to_string of the view");
	if constexpr (std::same_as<C, char> || std::same_as<C, wchar_t>) {
		streamed<C>(e, "stream of the view", [&](auto & os) { os << view; });
	}
#endif
	if constexpr (std::same_as<C, char> || std::same_as<C, wchar_t>) streamed<C>(e, "print_into", [&](auto & os) { v.template print_into<E>(os); });
	sym_out(e.text, e.n * sizeof(C), "text");
	sym_reach("end");
}
template <typename C, typename V, size_t N> void all_ways() {
	uint64_t k = sym_range("encoding", 0, 10);
	sym_shard();
	switch (k) {
	case 0: return ways<encoding::base64, C, V, N>();
	case 1: return ways<encoding::base64_no_padding, C, V, N>();
	case 2: return ways<encoding::base64url, C, V, N>();
	case 3: return ways<encoding::base32, C, V, N>();
	case 4: return ways<encoding::base32_no_padding, C, V, N>();
	case 5: return ways<encoding::z_base32, C, V, N>();
	case 6: return ways<encoding::base16, C, V, N>();
	case 7: return ways<encoding::base16_uppercase, C, V, N>();
	case 8: return ways<encoding::base8, C, V, N>();
	case 9: return ways<encoding::base4, C, V, N>();
	case 10: return ways<encoding::base2, C, V, N>();
	}
}
// without saying how: hexadecimal, or what the tag asks for
template <typename E, typename C, typename V, size_t N> void defaults() {
	static u8 b[N];
	static expect<C> e;
	sym_shard();
	sym_bytes(b, N, "value");
	V v{};
	fill<N>(v, b);
	e.n = ref::encode(def<E>::r, b, N, e.text);
	streamed<C>(e, "operator<<", [&](auto & os) { os << v; });
	streamed<C>(e, "print_into", [&](auto & os) { v.print_into(os); });
	if constexpr (std::same_as<C, char>) {
		auto s = to_string(v);
		same(s.data(), s.size(), e, "to_string");
		auto f = to_fixed_string(v);
		same(f.data(), f.size(), e, "to_fixed_string");
		auto g = std::format("{}", v);
		same(g.data(), g.size(), e, "format {}");
		auto h = std::format("{:}", v);
		same(h.data(), h.size(), e, "format {:}");
	} else {
		auto g = std::format(L"{}", v);
		same(g.data(), g.size(), e, "format {}");
	}
	sym_out(e.text, e.n * sizeof(C), "text");
	sym_reach("end");
}
struct own_tag { static constexpr size_t digest_length = 6; using encoding = cthash::encoding::base32; };
// format with each documented name
template <typename E, typename V, size_t N> void formatted(std::format_string<const V &> fmt, std::wformat_string<const V &> wfmt) {
	static u8 b[N];
	static expect<char> e; static expect<wchar_t> w;
	sym_bytes(b, N, "value");
	V v{};
	fill<N>(v, b);
	e.n = ref::encode(def<E>::r, b, N, e.text);
	w.n = ref::encode(def<E>::r, b, N, w.text);
	const V & cv = v;
	auto s = std::format(fmt, cv);
	same(s.data(), s.size(), e, "format");
	auto ws = std::format(wfmt, cv);
	same(ws.data(), ws.size(), w, "wide format");
	sym_out(s.data(), s.size(), "text");
	sym_reach("end");
}
template <typename V, size_t N> void all_formats() {
	uint64_t k = sym_range("name", 0, 16);
	sym_shard();
#define F(K, E, T) case K: return formatted<encoding::E, V, N>("{:" T "}", L"{:" T "}");
	switch (k) {
	F(0, base64, "base64") F(1, base64_no_padding, "base64_no_padding") F(2, base64url, "base64url") F(3, base64url, "base64_url") F(4, base32, "base32") F(5, base32_no_padding, "base32_no_padding")
	F(6, z_base32, "z_base32") F(7, z_base32, "zbase32") F(8, base16, "base16") F(9, base16, "hexdec") F(10, base16_uppercase, "BASE16") F(11, base16_uppercase, "HEXDEC") F(12, base8, "base8") F(13, base8, "octal")
	F(14, base4, "base4") F(15, base2, "base2") F(16, base2, "binary")
	}
}
#ifndef USE_SINGLE_HEADER // which has no formatter for a view
// text around and several values in one call; a view of the bytes formats as well
void mixed_format() {
	static u8 b[8];
	sym_shard();
	sym_bytes(b, 8, "value");
	hash_value<8> v{};
	fill<8>(v, b);
	static expect<char> e;
	size_t n = 0;
	e.text[n++] = '<';
	n += ref::encode(ref::BASE16, b, 3, e.text + n);
	e.text[n++] = '.'; e.text[n++] = '.';
	n += ref::encode(ref::BASE64, b + 6, 2, e.text + n);
	e.text[n++] = '|';
	n += ref::encode(ref::BASE32_NP, b, 8, e.text + n);
	e.text[n++] = '>';
	e.n = n;
	auto s = std::format("<{:hexdec}..{:base64}|{}>", v.prefix<3>(), v.suffix<2>(), v | base32_no_padding_encode);
	same(s.data(), s.size(), e, "several values in one format call");
	static char out[MAXOUT];
	char * end = std::format_to(out, "<{0:hexdec}..{1:base64}|{2}>", v.prefix<3>(), v.suffix<2>(), v | base32_no_padding_encode);
	same(out, (size_t)(end - out), e, "format_to");
	sym_out(s.data(), s.size(), "text");
	sym_reach("end");
}
#endif
using T6 = tagged_hash_value<own_tag>;
}
SYM_ENTRY(print_hash4) { all_ways<char, hash_value<4>, 4>(); }
SYM_ENTRY(print_hash5_wide) { all_ways<wchar_t, hash_value<5>, 5>(); }
SYM_ENTRY(print_hash3_char8) { all_ways<char8_t, hash_value<3>, 3>(); }
SYM_ENTRY(print_sha256) { all_ways<char, sha256_value, 32>(); }
SYM_ENTRY(print_sha512) { all_ways<char, sha512_value, 64>(); }
SYM_ENTRY(print_sha3_224) { all_ways<char, sha3_224_value, 28>(); }
SYM_ENTRY(print_shake) { all_ways<char, shake128_value<88>, 11>(); }
SYM_ENTRY(print_xxh64) { all_ways<wchar_t, xxhash64_value, 8>(); }
SYM_ENTRY(print_own_tag) { all_ways<char, T6, 6>(); }
SYM_ENTRY(default_hash4) { defaults<encoding::base16, char, hash_value<4>, 4>(); }
SYM_ENTRY(default_hash5_wide) { defaults<encoding::base16, wchar_t, hash_value<5>, 5>(); }
SYM_ENTRY(default_sha256) { defaults<encoding::base16, char, sha256_value, 32>(); }
SYM_ENTRY(default_sha1_wide) { defaults<encoding::base16, wchar_t, sha224_value, 28>(); }
SYM_ENTRY(default_shake) { defaults<encoding::base16, char, shake256_value<72>, 9>(); }
SYM_ENTRY(default_xxh32) { defaults<encoding::base16, char, xxhash32_value, 4>(); }
SYM_ENTRY(default_own_tag) { defaults<encoding::base32, char, T6, 6>(); }
SYM_ENTRY(default_own_tag_wide) { defaults<encoding::base32, wchar_t, T6, 6>(); }
SYM_ENTRY(format_hash4) { all_formats<hash_value<4>, 4>(); }
SYM_ENTRY(format_sha256) { all_formats<sha256_value, 32>(); }
SYM_ENTRY(format_xxh64) { all_formats<xxhash64_value, 8>(); }
SYM_ENTRY(format_shake) { all_formats<shake256_value<72>, 9>(); }
SYM_ENTRY(format_own_tag) { all_formats<T6, 6>(); }
#ifndef USE_SINGLE_HEADER
SYM_ENTRY(format_mixed) { mixed_format(); }
#endif
