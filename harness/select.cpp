#include "inc.hpp"
#include <format>
#include <stdexcept>

namespace {
using namespace cthash;
// the documented names
struct known { const char * name; int id; };
static constexpr known names[] = {
	{"base64", 1}, {"base64_no_padding", 2}, {"base64url", 3}, {"base64_url", 3}, {"base32", 4}, {"base32_no_padding", 5}, {"z_base32", 6}, {"zbase32", 6},
	{"base16", 7}, {"hexdec", 7}, {"BASE16", 8}, {"HEXDEC", 8}, {"base8", 9}, {"octal", 9}, {"base4", 10}, {"base2", 11}, {"binary", 11}};
template <typename E> constexpr int id = 0;
template <> constexpr int id<encoding::base64> = 1;
template <> constexpr int id<encoding::base64_no_padding> = 2;
template <> constexpr int id<encoding::base64url> = 3;
template <> constexpr int id<encoding::base32> = 4;
template <> constexpr int id<encoding::base32_no_padding> = 5;
template <> constexpr int id<encoding::z_base32> = 6;
template <> constexpr int id<encoding::base16> = 7;
template <> constexpr int id<encoding::base16_uppercase> = 8;
template <> constexpr int id<encoding::base8> = 9;
template <> constexpr int id<encoding::base4> = 10;
template <> constexpr int id<encoding::base2> = 11;
constexpr int unknown = 99;
template <typename T> int which(const T & e) { return e.visit([]<typename E>(const E &) { return id<E>; }); }

template <typename C> int expected(const C * s, size_t p, int def) {
	if (p == 0) return def;
	int r = unknown;
	for (const known & k : names) {
		if (strlen(k.name) != p) continue;
		bool eq = true;
		for (size_t i = 0; i < p; i++) eq &= s[i] == (C)k.name[i];
		r = eq ? k.id : r;
	}
	return r;
}
template <typename C> size_t upto_brace(const C * s, size_t n) { size_t p = 0; while (p < n && s[p] != (C)'}') p++; return p; }

// any specification text: the name runs to the closing brace or the end
template <typename C, typename D, int Def> void spec_text(uint64_t lo, uint64_t hi) {
	static C s[40];
	size_t n = sym_range("n", lo, hi);
	sym_shard();
	sym_bytes(s, n * sizeof(C), "text");
	size_t p = upto_brace(s, n);
	int want = expected(s, p, Def), got; size_t at = p;
	std::basic_string_view<C> v(s, n);
	try {
		auto r = select_runtime_encoding<D>(v);
		got = which(r.encoding);
		at = (size_t)(r.iterator - v.begin());
	} catch (const std::invalid_argument &) { got = unknown; }
	sym_check(got == want, "encoding selected by this text");
	sym_check(at == p, "parsing stops at the closing brace or the end");
	sym_out(&got, sizeof got, "selected");
	sym_reach("end");
}
// the formatter's own parse function on a parse context
template <typename C> void parse_text(uint64_t hi) {
	static C s[40];
	size_t n = sym_range("n", 0, hi);
	sym_shard();
	sym_bytes(s, n * sizeof(C), "text");
	size_t p = upto_brace(s, n);
	int want = expected(s, p, 7), want64 = expected(s, p, 7), got, got64; size_t at = p;
	std::basic_string_view<C> v(s, n);
	try {
		std::basic_format_parse_context<C> ctx(v);
		std::formatter<hash_value<4>, C> f;
		auto it = f.parse(ctx);
		got = which(f.encoding);
		at = (size_t)(it - ctx.begin());
	} catch (const std::invalid_argument &) { got = unknown; }
	sym_check(got == want, "encoding of a value's formatter");
	sym_check(at == p, "parsing stops at the closing brace or the end");
	try {
		std::basic_format_parse_context<C> ctx(v);
		std::formatter<sha256_value, C> f;
		auto it = f.parse(ctx);
		got64 = which(f.encoding);
		at = (size_t)(it - ctx.begin());
	} catch (const std::invalid_argument &) { got64 = unknown; }
	sym_check(got64 == want64, "encoding of a tagged value's formatter");
	sym_check(at == p, "parsing stops at the closing brace or the end");
	sym_out(&got, sizeof got, "selected");
	sym_reach("end");
}
// construction from a name, no brace involved
void by_name(uint64_t hi) {
	static char s[40];
	size_t n = sym_range("n", 0, hi);
	sym_shard();
	sym_bytes(s, n, "name");
	int want = expected(s, n, unknown), got;
	try { runtime_encoding e{std::string_view(s, n)}; got = which(e); } catch (const std::invalid_argument &) { got = unknown; }
	sym_check(got == want, "encoding with this name");
	sym_out(&got, sizeof got, "selected");
	sym_reach("end");
}
// every known name is accepted in every character type, up to the end or the brace
template <typename C> void each_name() {
	static C s[40];
	uint64_t k = sym_range("name", 0, std::size(names) - 1), tail = sym_range("tail", 0, 1);
	sym_shard();
	size_t n = strlen(names[k].name);
	for (size_t i = 0; i < n; i++) s[i] = (C)names[k].name[i];
	if (tail) { s[n] = (C)'}'; sym_bytes(s + n + 1, 2 * sizeof(C), "rest"); }
	std::basic_string_view<C> v(s, n + (tail ? 3 : 0));
	int got; size_t at = 0;
	try { auto r = select_runtime_encoding<encoding::base4>(v); got = which(r.encoding); at = (size_t)(r.iterator - v.begin()); } catch (const std::invalid_argument &) { got = unknown; }
	sym_check(got == names[k].id, "known name");
	sym_check(at == n, "parsing stops after the name");
	sym_out(&got, sizeof got, "selected");
	sym_reach("end");
}
}
SYM_ENTRY(sel_char) { spec_text<char, encoding::hexdec, 7>(0, 20); }
SYM_ENTRY(sel_char8) { spec_text<char8_t, encoding::hexdec, 7>(0, 20); }
SYM_ENTRY(sel_char16) { spec_text<char16_t, encoding::base64, 1>(0, 20); }
SYM_ENTRY(sel_char32) { spec_text<char32_t, encoding::z_base32, 6>(0, 20); }
SYM_ENTRY(sel_wchar) { spec_text<wchar_t, encoding::base16_uppercase, 8>(0, 20); }
SYM_ENTRY(sel_char_long) { spec_text<char, encoding::hexdec, 7>(21, 38); }
SYM_ENTRY(sel_wchar_long) { spec_text<wchar_t, encoding::hexdec, 7>(21, 38); }
SYM_ENTRY(sel_parse) { parse_text<char>(19); }
SYM_ENTRY(sel_parse_wide) { parse_text<wchar_t>(19); }
SYM_ENTRY(sel_name) { by_name(20); }
SYM_ENTRY(sel_names_char) { each_name<char>(); }
SYM_ENTRY(sel_names_char8) { each_name<char8_t>(); }
SYM_ENTRY(sel_names_char16) { each_name<char16_t>(); }
SYM_ENTRY(sel_names_char32) { each_name<char32_t>(); }
SYM_ENTRY(sel_names_wchar) { each_name<wchar_t>(); }
