#include "spec.hpp"

namespace {
// ------------------------------------------------------------------ SHA-512/t, every permitted t
template <unsigned T> void t_digest(size_t n) {
	static u8 m[32];
	sym_bytes(m, n, "msg");
	u8 want[T / 8];
	spec<sha512t<T>>::want(m, n, want);
	auto d = sha512t<T>{}.update(bytes(m, n)).final();
	static_assert(sizeof(d) == T / 8 && sizeof(sha512t_value<T>) == T / 8);
	sym_check_eq(d.data(), want, T / 8, "SHA-512/t digest");
	sym_out(d.data(), T / 8, "digest");
	sym_reach("end");
}
template <size_t... I> void all_t(std::index_sequence<I...>) {
	static const size_t L[] = {0, 3, 31};
	uint64_t k = sym_range("t/8", 1, 63);
	size_t n = L[sym_range("n", 0, 2)];
	sym_shard();
	if (k == 48) { sym_check(true, "t=384 is not permitted"); sym_reach("end"); return; }
	((I + 1 == k && I + 1 != 48 ? (t_digest<(I + 1 == 48 ? 8 : (I + 1) * 8)>(n), 0) : 0), ...);
}
}
SYM_ENTRY(sha512t_all) { all_t(std::make_index_sequence<63>{}); }
