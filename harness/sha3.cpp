#include "inc.hpp"

namespace {
using namespace cthash;
template <typename V> void out_bytes(const V & v, u8 * o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = (u8)v.data()[i]; }

// ------------------------------------------------------------------ whole messages, public API
template <typename H, size_t Rate, size_t Out> void digest(uint64_t lo, uint64_t hi) {
	static u8 msg[1024];
	size_t n = sym_range("n", lo, hi);
	sym_shard();
	sym_bytes(msg, n, "msg");
	u8 got[Out], want[Out];
	auto v = H{}.update(bytes(msg, n)).final();
	static_assert(sizeof(v) == Out);
	out_bytes(v, got, Out);
	ref::keccak(Rate, 0x06, msg, n, want, Out);
	sym_check_eq(got, want, Out, "digest equals FIPS 202");
	sym_out(got, Out, "digest");
	sym_reach("end");
}
template <typename H, size_t Rate, size_t N> void shake(size_t n) {
	static u8 msg[512];
	sym_bytes(msg, n, "msg");
	u8 got[N], want[N];
	auto v = H{}.update(bytes(msg, n)).template final<N * 8>();
	static_assert(sizeof(v) == N);
	out_bytes(v, got, N);
	ref::keccak(Rate, 0x1f, msg, n, want, N);
	sym_check_eq(got, want, N, "output equals FIPS 202");
	sym_out(got, N, "output");
	sym_reach("end");
}
template <typename H, size_t Rate> void shake_lengths() { // message length x output length
	static const size_t L[] = {0, 1, 7, 8, 9, Rate - 2, Rate - 1, Rate, Rate + 1, 2 * Rate - 1, 2 * Rate};
	size_t n = L[sym_range("n", 0, 10)];
	uint64_t k = sym_range("k", 0, 13);
	sym_shard();
	switch (k) {
	case 0: return shake<H, Rate, 1>(n);
	case 1: return shake<H, Rate, 4>(n);
	case 2: return shake<H, Rate, 7>(n);
	case 3: return shake<H, Rate, 8>(n);
	case 4: return shake<H, Rate, 9>(n);
	case 5: return shake<H, Rate, 32>(n);
	case 6: return shake<H, Rate, Rate - 1>(n);
	case 7: return shake<H, Rate, Rate>(n);
	case 8: return shake<H, Rate, Rate + 1>(n);
	case 9: return shake<H, Rate, Rate + 8>(n);
	case 10: return shake<H, Rate, 2 * Rate>(n);
	case 11: return shake<H, Rate, 2 * Rate + 3>(n);
	case 12: return shake<H, Rate, 3 * Rate + 5>(n);
	case 13: return shake<H, Rate, 64>(n);
	}
}
template <typename H, size_t Rate> void shake_msg(uint64_t lo, uint64_t hi) {
	size_t n = sym_range("n", lo, hi);
	sym_shard();
	shake<H, Rate, 32>(n);
}
// a shorter output is a prefix of a longer one
template <typename H, size_t Rate, size_t A, size_t B> void prefix(size_t n) {
	static u8 msg[512];
	sym_bytes(msg, n, "msg");
	auto a = H{}.update(bytes(msg, n)).template final<A * 8>();
	auto b = H{}.update(bytes(msg, n)).template final<B * 8>();
	sym_check_eq(a.data(), b.data(), A, "shorter output is a prefix of the longer one");
	sym_check(a == b && (a <=> b) == 0, "prefix-comparable");
	sym_out(b.data(), B, "output");
	sym_reach("end");
}
template <typename H, size_t Rate> void prefixes() {
	static const size_t L[] = {0, 5, Rate - 1, Rate, Rate + 3};
	size_t n = L[sym_range("n", 0, 4)];
	uint64_t k = sym_range("k", 0, 5);
	sym_shard();
	switch (k) {
	case 0: return prefix<H, Rate, 1, 2>(n);
	case 1: return prefix<H, Rate, 4, 32>(n);
	case 2: return prefix<H, Rate, 13, Rate>(n);
	case 3: return prefix<H, Rate, Rate - 3, Rate + 1>(n);
	case 4: return prefix<H, Rate, Rate, 2 * Rate>(n);
	case 5: return prefix<H, Rate, Rate + 9, 2 * Rate + 17>(n);
	}
}
// ------------------------------------------------------------------ several updates
template <typename H, size_t Rate, unsigned char Sfx, size_t Out, bool All = false> void chunks() {
	static const size_t A[] = {0, 5, Rate - 1, Rate, 1, Rate + 1};
	static const size_t C[] = {0, 3, 11, Rate - 5, Rate, Rate + 1, 2 * Rate - 1, 1, 8, Rate - 1, Rate - 8, 2 * Rate};
	static const size_t D[] = {1, Rate + 7, 0, 8, Rate - 1, Rate};
	static u8 msg[5 * Rate];
	size_t a = A[sym_range("a", 0, All ? 5 : 3)], b = C[sym_range("b", 0, All ? 11 : 6)], c = D[sym_range("c", 0, All ? 5 : 1)];
	sym_shard();
	size_t n = a + b + c;
	sym_bytes(msg, n, "msg");
	u8 got[Out], want[Out];
	H h{};
	h.update(bytes(msg, a)).update(bytes(msg + a, b));
	h.update(bytes(msg + a + b, c));
	if constexpr (Sfx == 0x1f) { auto v = h.template final<Out * 8>(); out_bytes(v, got, Out); }
	else { auto v = h.final(); out_bytes(v, got, Out); }
	ref::keccak(Rate, Sfx, msg, n, want, Out);
	sym_check_eq(got, want, Out, "digest of a message given in three pieces");
	sym_out(got, Out, "digest");
	sym_reach("end");
}
// ------------------------------------------------------------------ the permutation
void permutation() {
	sym_shard();
	if constexpr (requires(keccak::state_1600 s) { keccak::keccak_f(s); s[0] ^= uint64_t{1}; }) {
		keccak::state_1600 s;
		uint64_t A[25];
		sym_words(A, 25, 'A');
		for (unsigned i = 0; i < 25; i++) s[i] = A[i];
		keccak::keccak_f(s);
		ref::keccak_f(A);
		sym_check_eq(s.data(), A, sizeof A, "Keccak-f[1600] of an arbitrary state");
		sym_out(s.data(), sizeof A, "state");
		sym_reach("end");
	} else sym_reach("not-representable");
}
// ------------------------------------------------------------------ arbitrary reachable states
// A hasher given `pos` bytes through the public interface; if it keeps (lanes, position) the way this harness
// understands, the lanes are replaced by arbitrary ones. Otherwise nothing is claimed here ("not-representable").
template <typename H, size_t Rate> bool arbitrary(H & h, ref::Sponge & s, size_t pos) {
	if constexpr (requires { h.internal_state[0]; h.position; }) {
		if (sizeof(H) > sizeof(h.internal_state) + sizeof(h.position) + alignof(H)) return false; // more state than this knows
		static u8 warm[Rate];
		sym_bytes(warm, pos, "earlier");
		h.update(bytes(warm, pos));
		s.init(Rate);
		size_t p = s.feed(warm, pos, 0);
		uint64_t G[25];
		for (unsigned i = 0; i < 25; i++) G[i] = h.internal_state[i];
		if (h.position != p || !sym_same(G, s.A, sizeof G, "state-form")) return false;
		sym_words(s.A, 25, 'A');
		for (unsigned i = 0; i < 25; i++) h.internal_state[i] = s.A[i];
		return true;
	} else return false;
}
template <typename H, size_t Rate, unsigned char Sfx> void observe(H h, ref::Sponge s, size_t pos, size_t m) {
	constexpr size_t Out = Sfx == 0x1f ? 32 : (200 - Rate) / 2;
	u8 in[Rate + 8], got[Out], want[Out];
	for (size_t i = 0; i < m; i++) in[i] = (u8)(i * 29 + 7);
	h.update(bytes(in, m));
	if constexpr (Sfx == 0x1f) { auto v = h.template final<Out * 8>(); out_bytes(v, got, Out); }
	else { auto v = h.final(); out_bytes(v, got, Out); }
	s.pad(s.feed(in, m, pos), Sfx);
	s.squeeze(want, Out);
	sym_check_eq(got, want, Out, "output after one update of an arbitrary state");
}
template <typename H, size_t Rate, unsigned char Sfx = 6> void step(size_t pos, size_t m) {
	static u8 in[6 * Rate];
	H h{};
	ref::Sponge s;
	if (!arbitrary<H, Rate>(h, s, pos)) { sym_reach("not-representable"); return; }
	sym_bytes(in, m, "in");
	h.update(bytes(in, m));
	size_t p = s.feed(in, m, pos);
	bool kept = false;
	if constexpr (requires { h.internal_state[0]; h.position; }) {
		uint64_t G[25];
		for (unsigned i = 0; i < 25; i++) G[i] = h.internal_state[i];
		kept = h.position == p && sym_same(G, s.A, sizeof G, "state-after");
		sym_out(G, sizeof G, "state");
	}
	if (!kept) { // otherwise what is observable decides: the output now, and after more input
		observe<H, Rate, Sfx>(h, s, p, 0);
		observe<H, Rate, Sfx>(h, s, p, 1);
		observe<H, Rate, Sfx>(h, s, p, Rate + 3);
		sym_reach("not-inductive");
	}
	sym_reach("end");
}
template <typename H, size_t Rate, unsigned char Sfx = 6> void step_all() {
	size_t pos = sym_range("pos", 0, Rate - 1), m = sym_range("m", 0, 2 * Rate + 1);
	sym_shard();
	step<H, Rate, Sfx>(pos, m);
}
template <typename H, size_t Rate, unsigned char Sfx = 6> void step_some() {
	size_t pos = sym_range("pos", 0, Rate - 1);
	uint64_t k = sym_range("k", 0, 7);
	sym_shard();
	if (k > 5 && pos % 16 != 0 && pos % 16 != 3 && pos != Rate - 1) return;
	const size_t ms[] = {0, 1, Rate - pos - 1, Rate - pos, Rate - pos + 1, 2 * Rate - pos, 3 * Rate - pos + 2, 5 * Rate + 9};
	step<H, Rate, Sfx>(pos, ms[k]);
}
template <typename H, size_t Rate, unsigned char Sfx, size_t Out> void finish() {
	size_t pos = sym_range("pos", 0, Rate - 1);
	sym_shard();
	H h{};
	ref::Sponge s;
	if (!arbitrary<H, Rate>(h, s, pos)) { sym_reach("not-representable"); return; }
	u8 got[Out], want[Out];
	if constexpr (Sfx == 0x1f) { auto v = h.template final<Out * 8>(); out_bytes(v, got, Out); }
	else { auto v = h.final(); out_bytes(v, got, Out); }
	s.pad(pos, Sfx);
	s.squeeze(want, Out);
	sym_check_eq(got, want, Out, "digest from an arbitrary state");
	sym_out(got, Out, "digest");
	sym_reach("end");
}
// squeeze of every length from an arbitrary state
template <typename H, size_t Rate> void squeeze(uint64_t hi) {
	if constexpr (requires(H h, std::span<std::byte> o) { h.internal_state[0]; h.squeeze(o); }) {
		size_t n = sym_range("n", 0, hi);
		sym_shard();
		H h{};
		ref::Sponge s;
		s.rate = Rate;
		sym_words(s.A, 25, 'A');
		for (unsigned i = 0; i < 25; i++) h.internal_state[i] = s.A[i];
		static u8 got[4 * Rate + 32], want[4 * Rate + 32], orig[4 * Rate + 32];
		sym_bytes(got, n + 16, "stale");
		memcpy(orig, got, n + 16);
		h.squeeze(std::span<std::byte>((std::byte *)got, n));
		s.squeeze(want, n);
		sym_check_eq(got, want, n, "squeezed bytes");
		sym_check_eq(got + n, orig + n, 16, "nothing written after the output");
		sym_out(got, n, "output");
		sym_reach("end");
	} else sym_reach("not-representable");
}
// ------------------------------------------------------------------ final(span) and copies
template <typename H, size_t Out> void final_span() {
	static u8 in[300];
	static const size_t L[] = {0, 1, 71, 72, 103, 104, 135, 136, 143, 144, 200};
	size_t n = L[sym_range("n", 0, 10)];
	sym_shard();
	sym_bytes(in, n, "in");
	H a{}, b{};
	a.update(bytes(in, n));
	b.update(bytes(in, n));
	struct { u8 pre[16]; std::byte out[Out]; u8 post[16]; } box;
	sym_bytes(&box, sizeof box, "box");
	u8 pre[16], post[16];
	memcpy(pre, box.pre, 16); memcpy(post, box.post, 16);
	a.final(std::span<std::byte, Out>(box.out, Out));
	auto v = b.final();
	sym_check_eq(v.data(), box.out, Out, "final(span) and final() agree");
	sym_check_eq(box.pre, pre, 16, "nothing written before the digest");
	sym_check_eq(box.post, post, 16, "nothing written after the digest");
	sym_out(box.out, Out, "digest");
	sym_reach("end");
}
template <typename H, size_t Rate, unsigned char Sfx, size_t Out> void copies() {
	static u8 in[300], x[300], y[300];
	static const size_t L[] = {0, 1, 9, Rate - 1, Rate, Rate + 1};
	size_t n = L[sym_range("n", 0, 5)], i = L[sym_range("i", 0, 4)], j = L[sym_range("j", 0, 3)];
	sym_shard();
	sym_bytes(in, n, "in"); sym_bytes(x, i, "x"); sym_bytes(y, j, "y");
	auto fin = [](H & h, u8 * o) { if constexpr (Sfx == 0x1f) { auto v = h.template final<Out * 8>(); out_bytes(v, o, Out); } else { auto v = h.final(); out_bytes(v, o, Out); } };
	H a{};
	a.update(bytes(in, n));
	H b(a);
	a.update(bytes(x, i));
	b.update(bytes(y, j));
	H c(std::move(b));
	u8 da[Out], dc[Out], wa[Out], wc[Out];
	fin(a, da);
	fin(c, dc);
	H p{}, q{};
	p.update(bytes(in, n)).update(bytes(x, i));
	q.update(bytes(in, n)).update(bytes(y, j));
	fin(p, wa); fin(q, wc);
	sym_check_eq(da, wa, Out, "original unaffected by its copy");
	sym_check_eq(dc, wc, Out, "copy continues from where it was taken");
	sym_out(da, Out, "da"); sym_out(dc, Out, "dc");
	sym_reach("end");
}
}
SYM_ENTRY(sha3_224_digest) { digest<sha3_224, 144, 28>(0, 150); }
SYM_ENTRY(sha3_256_digest) { digest<sha3_256, 136, 32>(0, 280); }
SYM_ENTRY(sha3_384_digest) { digest<sha3_384, 104, 48>(0, 215); }
SYM_ENTRY(sha3_512_digest) { digest<sha3_512, 72, 64>(0, 230); }
SYM_ENTRY(sha3_224_digest_long) { digest<sha3_224, 144, 28>(151, 700); }
SYM_ENTRY(sha3_256_digest_long) { digest<sha3_256, 136, 32>(281, 1000); }
SYM_ENTRY(sha3_384_digest_long) { digest<sha3_384, 104, 48>(216, 700); }
SYM_ENTRY(sha3_512_digest_long) { digest<sha3_512, 72, 64>(231, 700); }
SYM_ENTRY(shake128_msg) { shake_msg<shake128, 168>(0, 172); }
SYM_ENTRY(shake256_msg) { shake_msg<shake256, 136>(0, 275); }
SYM_ENTRY(shake128_lengths) { shake_lengths<shake128, 168>(); }
SYM_ENTRY(shake256_lengths) { shake_lengths<shake256, 136>(); }
SYM_ENTRY(shake128_prefix) { prefixes<shake128, 168>(); }
SYM_ENTRY(shake256_prefix) { prefixes<shake256, 136>(); }
SYM_ENTRY(sha3_224_chunks) { chunks<sha3_224, 144, 6, 28>(); }
SYM_ENTRY(sha3_224_chunks_all) { chunks<sha3_224, 144, 6, 28, true>(); }
SYM_ENTRY(sha3_256_chunks) { chunks<sha3_256, 136, 6, 32>(); }
SYM_ENTRY(sha3_256_chunks_all) { chunks<sha3_256, 136, 6, 32, true>(); }
SYM_ENTRY(sha3_384_chunks) { chunks<sha3_384, 104, 6, 48>(); }
SYM_ENTRY(sha3_384_chunks_all) { chunks<sha3_384, 104, 6, 48, true>(); }
SYM_ENTRY(sha3_512_chunks) { chunks<sha3_512, 72, 6, 64>(); }
SYM_ENTRY(sha3_512_chunks_all) { chunks<sha3_512, 72, 6, 64, true>(); }
SYM_ENTRY(shake128_chunks) { chunks<shake128, 168, 0x1f, 32>(); }
SYM_ENTRY(shake128_chunks_all) { chunks<shake128, 168, 0x1f, 32, true>(); }
SYM_ENTRY(shake256_chunks) { chunks<shake256, 136, 0x1f, 40>(); }
SYM_ENTRY(shake256_chunks_all) { chunks<shake256, 136, 0x1f, 40, true>(); }
SYM_ENTRY(keccak_permutation) { permutation(); }
SYM_ENTRY(sha3_224_step) { step_some<sha3_224, 144>(); }
SYM_ENTRY(sha3_256_step) { step_some<sha3_256, 136>(); }
SYM_ENTRY(sha3_384_step) { step_some<sha3_384, 104>(); }
SYM_ENTRY(sha3_512_step) { step_some<sha3_512, 72>(); }
SYM_ENTRY(shake128_step) { step_some<shake128, 168, 0x1f>(); }
SYM_ENTRY(shake256_step) { step_some<shake256, 136, 0x1f>(); }
SYM_ENTRY(sha3_512_step_all) { step_all<sha3_512, 72>(); }
SYM_ENTRY(sha3_256_step_all) { step_all<sha3_256, 136>(); }
SYM_ENTRY(shake128_step_all) { step_all<shake128, 168, 0x1f>(); }
SYM_ENTRY(sha3_224_finish) { finish<sha3_224, 144, 6, 28>(); }
SYM_ENTRY(sha3_256_finish) { finish<sha3_256, 136, 6, 32>(); }
SYM_ENTRY(sha3_384_finish) { finish<sha3_384, 104, 6, 48>(); }
SYM_ENTRY(sha3_512_finish) { finish<sha3_512, 72, 6, 64>(); }
SYM_ENTRY(shake128_finish) { finish<shake128, 168, 0x1f, 32>(); }
SYM_ENTRY(shake256_finish) { finish<shake256, 136, 0x1f, 300>(); }
SYM_ENTRY(shake128_squeeze) { squeeze<shake128, 168>(2 * 168 + 9); }
SYM_ENTRY(shake256_squeeze) { squeeze<shake256, 136>(3 * 136 + 9); }
SYM_ENTRY(sha3_224_final_span) { final_span<sha3_224, 28>(); }
SYM_ENTRY(sha3_256_final_span) { final_span<sha3_256, 32>(); }
SYM_ENTRY(sha3_384_final_span) { final_span<sha3_384, 48>(); }
SYM_ENTRY(sha3_512_final_span) { final_span<sha3_512, 64>(); }
SYM_ENTRY(sha3_256_copies) { copies<sha3_256, 136, 6, 32>(); }
SYM_ENTRY(sha3_512_copies) { copies<sha3_512, 72, 6, 64>(); }
SYM_ENTRY(shake128_copies) { copies<shake128, 168, 0x1f, 48>(); }
