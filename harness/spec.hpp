// a hasher type, its reference, its digest size and block size, and how to finish it
#pragma once
#include "inc.hpp"
namespace {
using namespace cthash;
template <typename H> struct spec;
template <typename W, size_t Out> struct sha2_spec { static constexpr size_t out = Out, block = W::block; };
#define SHA2(H, W, O, IV) template <> struct spec<H> { static constexpr size_t out = O, block = ref::W::block; static constexpr bool seeded = false; \
	static void want(const u8 * m, size_t n, u8 * o) { ref::sha2<ref::W>(refc::IV, m, n, o, O); } static auto fin(H & h) { return h.final(); } };
SHA2(sha224, W32, 28, IV224) SHA2(sha256, W32, 32, IV256) SHA2(sha384, W64, 48, IV384) SHA2(sha512, W64, 64, IV512)
template <unsigned T> struct spec<sha512t<T>> { static constexpr size_t out = T / 8, block = 128;
	static void want(const u8 * m, size_t n, u8 * o) { uint64_t iv[8]; ref::sha512t_iv(T, iv); ref::sha2<ref::W64>(iv, m, n, o, T / 8); } static auto fin(sha512t<T> & h) { return h.final(); } };
#define SHA3(H, R, S, O, F) template <> struct spec<H> { static constexpr size_t out = O, block = R; static void want(const u8 * m, size_t n, u8 * o) { ref::keccak(R, S, m, n, o, O); } static auto fin(H & h) { return h.F; } };
SHA3(sha3_224, 144, 6, 28, final()) SHA3(sha3_256, 136, 6, 32, final()) SHA3(sha3_384, 104, 6, 48, final()) SHA3(sha3_512, 72, 6, 64, final())
SHA3(shake128, 168, 0x1f, 32, final<256>()) SHA3(shake256, 136, 0x1f, 64, final<512>())
template <size_t B> struct spec<xxhash<B>> { static constexpr size_t out = B / 8, block = B / 2; static auto fin(xxhash<B> & h) { return h.final(); }
	static void want(const u8 * m, size_t n, u8 * o) { if constexpr (B == 32) ref::xxh<ref::XX32>(0, m, n, o); else ref::xxh<ref::XX64>(0, m, n, o); } };

using xxh32 = xxhash32; using xxh64 = xxhash64; using sha512_256 = sha512t<256>; using sha512_224 = sha512t<224>;
}
