// Reference specifications, written from FIPS 180-4, FIPS 202, the xxHash specification and RFC 4648.
// Deliberately naive: messages are padded into one buffer and processed block by block.
// No header of the code under test is included here.
#pragma once
#include "constants.hpp"
#include <cstddef>
#include <cstdint>

namespace ref {

inline uint32_t rotr32(uint32_t x, unsigned n) { return (x >> n) | (x << (32u - n)); }
inline uint64_t rotr64(uint64_t x, unsigned n) { return (x >> n) | (x << (64u - n)); }
inline uint32_t rotl32(uint32_t x, unsigned n) { return (x << n) | (x >> (32u - n)); }
inline uint64_t rotl64(uint64_t x, unsigned n) { return n == 0u ? x : ((x << n) | (x >> (64u - n))); }

// ---------------------------------------------------------------- SHA-2 (FIPS 180-4)
struct W32 {
	using word = uint32_t;
	static constexpr unsigned rounds = 64, block = 64, lenbytes = 8;
	static word K(unsigned i) { return refc::K32[i]; }
	static word S0(word x) { return rotr32(x, 2) ^ rotr32(x, 13) ^ rotr32(x, 22); }
	static word S1(word x) { return rotr32(x, 6) ^ rotr32(x, 11) ^ rotr32(x, 25); }
	static word s0(word x) { return rotr32(x, 7) ^ rotr32(x, 18) ^ (x >> 3); }
	static word s1(word x) { return rotr32(x, 17) ^ rotr32(x, 19) ^ (x >> 10); }
};
struct W64 {
	using word = uint64_t;
	static constexpr unsigned rounds = 80, block = 128, lenbytes = 16;
	static word K(unsigned i) { return refc::K64[i]; }
	static word S0(word x) { return rotr64(x, 28) ^ rotr64(x, 34) ^ rotr64(x, 39); }
	static word S1(word x) { return rotr64(x, 14) ^ rotr64(x, 18) ^ rotr64(x, 41); }
	static word s0(word x) { return rotr64(x, 1) ^ rotr64(x, 8) ^ (x >> 7); }
	static word s1(word x) { return rotr64(x, 19) ^ rotr64(x, 61) ^ (x >> 6); }
};
template <typename W> void sha2_schedule(const unsigned char * p, typename W::word * w) {
	using T = typename W::word;
	for (unsigned t = 0; t < 16; ++t) {
		T v = 0;
		for (unsigned k = 0; k < sizeof(T); ++k) v = (T)((v << 8) | p[t * sizeof(T) + k]);
		w[t] = v;
	}
	for (unsigned t = 16; t < W::rounds; ++t) w[t] = w[t - 16] + W::s0(w[t - 15]) + w[t - 7] + W::s1(w[t - 2]);
}
template <typename W> void sha2_rounds(const typename W::word * w, typename W::word * H) {
	using T = typename W::word;
	T a = H[0], b = H[1], c = H[2], d = H[3], e = H[4], f = H[5], g = H[6], h = H[7];
	for (unsigned t = 0; t < W::rounds; ++t) {
		T T1 = h + W::S1(e) + ((e & f) ^ (~e & g)) + W::K(t) + w[t];
		T T2 = W::S0(a) + ((a & b) ^ (a & c) ^ (b & c));
		h = g; g = f; f = e; e = d + T1; d = c; c = b; b = a; a = T1 + T2;
	}
	H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
}
template <typename W> void sha2_compress(const unsigned char * p, typename W::word * H) {
	typename W::word w[W::rounds];
	sha2_schedule<W>(p, w);
	sha2_rounds<W>(w, H);
}
// finish a message: H is the state after all full blocks, tail the unprocessed bytes (< block), total the length in bytes (below 2^61,
// so that its length in bits fits 64 bits and the upper half of the 128-bit length field of SHA-384/512 is zero)
template <typename W> void sha2_finish(typename W::word * H, const unsigned char * tail, size_t ntail, uint64_t total) {
	unsigned char buf[2 * W::block];
	for (unsigned i = 0; i < 2 * W::block; ++i) buf[i] = 0;
	for (size_t i = 0; i < ntail; ++i) buf[i] = tail[i];
	buf[ntail] = 0x80;
	size_t blocks = (ntail + 1 + W::lenbytes <= W::block) ? 1 : 2;
	unsigned char * end = buf + blocks * W::block;
	uint64_t lo = total << 3;
	for (unsigned k = 0; k < 8; ++k) end[-1 - (int)k] = (unsigned char)(lo >> (8 * k));
	if (W::lenbytes == 16) for (unsigned k = 0; k < 8; ++k) end[-9 - (int)k] = 0;
	for (size_t b = 0; b < blocks; ++b) sha2_compress<W>(buf + b * W::block, H);
}
template <typename W> void sha2_output(const typename W::word * H, unsigned char * out, size_t n) {
	for (size_t i = 0; i < n; ++i) out[i] = (unsigned char)(H[i / sizeof(typename W::word)] >> (8 * (sizeof(typename W::word) - 1 - i % sizeof(typename W::word))));
}
template <typename W> void sha2(const typename W::word * iv, const unsigned char * msg, size_t n, unsigned char * out, size_t outn) {
	typename W::word H[8];
	for (unsigned i = 0; i < 8; ++i) H[i] = iv[i];
	size_t off = 0;
	for (; off + W::block <= n; off += W::block) sha2_compress<W>(msg + off, H);
	sha2_finish<W>(H, msg + off, n - off, n);
	sha2_output<W>(H, out, outn);
}
// FIPS 180-4 section 5.3.6: initial value of SHA-512/t
inline void sha512t_iv(unsigned t, uint64_t * iv) {
	uint64_t h0[8];
	for (unsigned i = 0; i < 8; ++i) h0[i] = refc::IV512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
	unsigned char name[11] = {'S', 'H', 'A', '-', '5', '1', '2', '/', 0, 0, 0};
	size_t n = 8;
	if (t >= 100) name[n++] = (unsigned char)('0' + t / 100);
	if (t >= 10) name[n++] = (unsigned char)('0' + t / 10 % 10);
	name[n++] = (unsigned char)('0' + t % 10);
	unsigned char d[64];
	sha2<W64>(h0, name, n, d, 64);
	for (unsigned i = 0; i < 8; ++i) { iv[i] = 0; for (unsigned k = 0; k < 8; ++k) iv[i] = (iv[i] << 8) | d[8 * i + k]; }
}

// ---------------------------------------------------------------- Keccak (FIPS 202)
inline void keccak_f(uint64_t * A) { // A[x + 5 y]
	for (unsigned r = 0; r < 24; ++r) {
		uint64_t C[5], D[5], B[25];
		for (unsigned x = 0; x < 5; ++x) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
		for (unsigned x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rotl64(C[(x + 1) % 5], 1);
		for (unsigned i = 0; i < 25; ++i) A[i] ^= D[i % 5];
		for (unsigned x = 0; x < 5; ++x) for (unsigned y = 0; y < 5; ++y) B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl64(A[x + 5 * y], refc::RHO[x + 5 * y]);
		for (unsigned y = 0; y < 5; ++y) for (unsigned x = 0; x < 5; ++x) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
		A[0] ^= refc::RC[r];
	}
}
struct Sponge {
	uint64_t A[25];
	size_t rate;
	void init(size_t r) { rate = r; for (unsigned i = 0; i < 25; ++i) A[i] = 0; }
	unsigned char byte(size_t pos) const { return (unsigned char)(A[pos / 8] >> (8 * (pos % 8))); }
	void xor_block(const unsigned char * p) { // one block of `rate` bytes
		for (size_t l = 0; l < rate / 8; ++l) {
			uint64_t v = 0;
			for (unsigned k = 0; k < 8; ++k) v |= (uint64_t)p[8 * l + k] << (8 * k);
			A[l] ^= v;
		}
	}
	// absorb bytes of which the first goes to position pos of the current block; returns the position after the last
	size_t feed(const unsigned char * msg, size_t n, size_t pos) {
		unsigned char blk[200];
		for (size_t i = 0; ; ) {
			for (size_t k = 0; k < rate; ++k) blk[k] = 0;
			for (; i < n && pos < rate; ++i) blk[pos++] = msg[i];
			xor_block(blk);
			if (pos < rate) return pos;
			keccak_f(A);
			pos = 0;
		}
	}
	void pad(size_t pos, unsigned char suffix) { // domain suffix including the first pad bit, and the last pad bit
		unsigned char blk[200];
		for (size_t k = 0; k < rate; ++k) blk[k] = 0;
		blk[pos] = suffix;
		blk[rate - 1] ^= 0x80;
		xor_block(blk);
		keccak_f(A);
	}
	void absorb(const unsigned char * msg, size_t n, unsigned char suffix) { pad(feed(msg, n, 0), suffix); }
	void squeeze(unsigned char * out, size_t n) {
		size_t pos = 0;
		for (size_t i = 0; i < n; ++i) { if (pos == rate) { keccak_f(A); pos = 0; } out[i] = byte(pos++); }
	}
};
inline void keccak(size_t rate, unsigned char suffix, const unsigned char * msg, size_t n, unsigned char * out, size_t outn) {
	Sponge s; s.init(rate); s.absorb(msg, n, suffix); s.squeeze(out, outn);
}

// ---------------------------------------------------------------- xxHash
struct XX32 {
	using T = uint32_t;
	static constexpr T P1 = 0x9E3779B1u, P2 = 0x85EBCA77u, P3 = 0xC2B2AE3Du, P4 = 0x27D4EB2Fu, P5 = 0x165667B1u;
	static T rd(const unsigned char * p) { return (T)p[0] | (T)p[1] << 8 | (T)p[2] << 16 | (T)p[3] << 24; }
	static T round(T a, T l) { a += l * P2; a = rotl32(a, 13); return a * P1; }
	static void init(T * acc, T seed) { acc[0] = seed + P1 + P2; acc[1] = seed + P2; acc[2] = seed; acc[3] = seed - P1; }
	static void stripe(T * acc, const unsigned char * p) { for (unsigned i = 0; i < 4; ++i) acc[i] = round(acc[i], rd(p + 4 * i)); }
	static T merge(const T * a) { return rotl32(a[0], 1) + rotl32(a[1], 7) + rotl32(a[2], 12) + rotl32(a[3], 18); }
	static constexpr size_t stripe_size = 16;
	// total: full input length (any number of bytes), p/n: the bytes after the last stripe
	static T finish(const T * accs, T seed, uint64_t total, const unsigned char * p, size_t n) {
		T acc = total >= 16 ? merge(accs) : seed + P5;
		acc += (T)total;
		while (n >= 4) { acc = acc + rd(p) * P3; acc = rotl32(acc, 17) * P4; p += 4; n -= 4; }
		while (n >= 1) { acc = acc + *p * P5; acc = rotl32(acc, 11) * P1; p += 1; n -= 1; }
		acc ^= acc >> 15; acc *= P2; acc ^= acc >> 13; acc *= P3; acc ^= acc >> 16;
		return acc;
	}
};
struct XX64 {
	using T = uint64_t;
	static constexpr T P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull, P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull;
	static T rd(const unsigned char * p) { T r = 0; for (unsigned i = 0; i < 8; ++i) r |= (T)p[i] << (8 * i); return r; }
	static T round(T a, T l) { a += l * P2; a = rotl64(a, 31); return a * P1; }
	static void init(T * acc, T seed) { acc[0] = seed + P1 + P2; acc[1] = seed + P2; acc[2] = seed; acc[3] = seed - P1; }
	static void stripe(T * acc, const unsigned char * p) { for (unsigned i = 0; i < 4; ++i) acc[i] = round(acc[i], rd(p + 8 * i)); }
	static T mergeAcc(T acc, T a) { acc ^= round(0, a); acc *= P1; return acc + P4; }
	static T merge(const T * a) {
		T acc = rotl64(a[0], 1) + rotl64(a[1], 7) + rotl64(a[2], 12) + rotl64(a[3], 18);
		for (unsigned i = 0; i < 4; ++i) acc = mergeAcc(acc, a[i]);
		return acc;
	}
	static constexpr size_t stripe_size = 32;
	static T finish(const T * accs, T seed, uint64_t total, const unsigned char * p, size_t n) {
		T acc = total >= 32 ? merge(accs) : seed + P5;
		acc += total;
		while (n >= 8) { acc ^= round(0, rd(p)); acc = rotl64(acc, 27) * P1; acc += P4; p += 8; n -= 8; }
		if (n >= 4) { acc ^= (T)XX32::rd(p) * P1; acc = rotl64(acc, 23) * P2; acc += P3; p += 4; n -= 4; }
		while (n >= 1) { acc ^= *p * P5; acc = rotl64(acc, 11) * P1; p += 1; n -= 1; }
		acc ^= acc >> 33; acc *= P2; acc ^= acc >> 29; acc *= P3; acc ^= acc >> 32;
		return acc;
	}
};
template <typename X> void xxh(typename X::T seed, const unsigned char * p, size_t n, unsigned char * out) {
	typename X::T acc[4];
	X::init(acc, seed);
	size_t off = 0;
	for (; off + X::stripe_size <= n; off += X::stripe_size) X::stripe(acc, p + off);
	typename X::T r = X::finish(acc, seed, n, p + off, n - off);
	for (unsigned i = 0; i < sizeof(r); ++i) out[i] = (unsigned char)(r >> (8 * (sizeof(r) - 1 - i))); // canonical big-endian form
}

// ---------------------------------------------------------------- base-N encodings (RFC 4648 and the same scheme for 8, 4 and 2 symbols)
struct Enc { const char * alphabet; unsigned bits; bool pad; };
inline constexpr Enc BASE64{"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, true}, BASE64_NP{"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, false},
	BASE64URL{"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, false}, BASE32{"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, true}, BASE32_NP{"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, false},
	ZBASE32{"ybndrfg8ejkmcpqxot1uwisza345h769", 5, false}, BASE16{"0123456789abcdef", 4, false}, BASE16UP{"0123456789ABCDEF", 4, false}, BASE8{"01234567", 3, true}, BASE4{"0123", 2, false}, BASE2{"01", 1, false};
inline size_t groups(size_t bytes, unsigned bits) { return (bytes * 8 + bits - 1) / bits; }
// characters per padded group: 8 input bits times the smallest whole number of output symbols
inline size_t padded(size_t n, unsigned bits) { size_t g = 1; while (g * bits % 8 != 0) g++; return (n + g - 1) / g * g; }
inline size_t encoded_size(const Enc & e, size_t n) { size_t c = groups(n, e.bits); return e.pad ? padded(c, e.bits) : c; }
inline unsigned symbol(const unsigned char * p, size_t n, unsigned bits, size_t g) { // the g-th group of bits, most significant first, zero-filled at the end
	unsigned v = 0;
	for (unsigned k = 0; k < bits; ++k) { size_t b = g * bits + k; v = v << 1 | (b / 8 < n ? p[b / 8] >> (7 - b % 8) & 1u : 0u); }
	return v;
}
template <typename C> size_t encode(const Enc & e, const unsigned char * p, size_t n, C * out) {
	size_t c = groups(n, e.bits), t = encoded_size(e, n);
	for (size_t g = 0; g < c; ++g) out[g] = (C)e.alphabet[symbol(p, n, e.bits, g)];
	for (size_t g = c; g < t; ++g) out[g] = (C)'=';
	return t;
}
// inverse: the value of a character, or 255
inline unsigned value_of(const Enc & e, uint32_t c) { unsigned r = 255; for (unsigned i = 0; i < (1u << e.bits); ++i) r = (uint32_t)(unsigned char)e.alphabet[i] == c ? i : r; return r; }
} // namespace ref
