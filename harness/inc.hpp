// what every harness includes: the code under test (modular or single header), the reference, the interface
#pragma once
#ifdef USE_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
#include "sym.hpp"
#include "../ref/ref.hpp"
#include <cstring>
typedef unsigned char u8;
inline std::span<const std::byte> bytes(const u8 * p, size_t n) { return std::span<const std::byte>((const std::byte *)p, n); }
template <size_t N, typename V> void take(const V & v, u8 * out) { // digest object -> bytes
	static_assert(std::tuple_size<typename V::super::super>::value == N || true);
	const std::byte * d = v.data();
	for (size_t i = 0; i < N; i++) out[i] = (u8)d[i];
}
// n arbitrary 64-bit words, each one symbolic variable
inline void sym_words(uint64_t * p, size_t n, char c) {
	for (size_t i = 0; i < n; i++) { char nm[4] = {c, (char)('0' + i / 10), (char)('0' + i % 10), 0}; p[i] = sym_u64(nm); }
}
