#include "inc.hpp"

namespace {
using namespace cthash;
template <unsigned Bits> struct sel;
template <> struct sel<32> { using X = ref::XX32; static uint32_t seed() { return sym_u32("seed"); } static uint32_t word(const char * n) { return sym_u32(n); } };
template <> struct sel<64> { using X = ref::XX64; static uint64_t seed() { return sym_u64("seed"); } static uint64_t word(const char * n) { return sym_u64(n); } };

template <unsigned Bits> void digest(uint64_t lo, uint64_t hi) {
	using X = typename sel<Bits>::X;
	static u8 msg[2100];
	size_t n = sym_range("n", lo, hi);
	sym_shard();
	sym_bytes(msg, n, "msg");
	auto seed = sel<Bits>::seed();
	u8 want[Bits / 8];
	ref::xxh<X>(seed, msg, n, want);
	auto a = xxhash<Bits>{seed}.update(bytes(msg, n)).final();
	auto b = xxhash<Bits>{seed}.update_and_final(bytes(msg, n));
	static_assert(sizeof(a) == Bits / 8);
	sym_check_eq(a.data(), want, Bits / 8, "streaming digest equals the xxHash specification");
	sym_check_eq(b.data(), want, Bits / 8, "one-shot digest equals the xxHash specification");
	sym_out(a.data(), Bits / 8, "digest");
	sym_reach("end");
}
template <unsigned Bits> void default_seed() {
	using X = typename sel<Bits>::X;
	static const size_t L[] = {0, 1, 15, 16, 31, 32, 33, 64};
	static u8 msg[100];
	size_t n = L[sym_range("n", 0, 7)];
	sym_shard();
	sym_bytes(msg, n, "msg");
	u8 want[Bits / 8];
	ref::xxh<X>(0, msg, n, want);
	auto a = xxhash<Bits>{}.update(bytes(msg, n)).final();
	sym_check_eq(a.data(), want, Bits / 8, "default seed is zero");
	auto seed = sel<Bits>::seed();
	ref::xxh<X>(seed, msg, n, want);
	auto v = std::string_view((const char *)msg, n);
	auto b = simple<xxhash<Bits>>(v, seed);
	sym_check_eq(b.data(), want, Bits / 8, "simple<> with a seed");
	sym_out(a.data(), Bits / 8, "digest");
	sym_reach("end");
}
// several updates; final() is const, repeatable, and the hasher can go on afterwards
template <unsigned Bits> void chunks() {
	using X = typename sel<Bits>::X;
	constexpr size_t B = X::stripe_size;
	static const size_t A[] = {0, 1, 3, B - 1, B, B + 1, 2 * B + 5};
	static const size_t C[] = {0, 1, 4, B - 4, B - 1, B, B + 1, 2 * B - 1, 2 * B, 3 * B + 3};
	static const size_t D[] = {0, 1, B - 1, B, B + 7};
	static u8 msg[8 * B];
	size_t a = A[sym_range("a", 0, 6)], b = C[sym_range("b", 0, 9)], c = D[sym_range("c", 0, 4)];
	sym_shard();
	size_t n = a + b + c;
	sym_bytes(msg, n, "msg");
	auto seed = sel<Bits>::seed();
	u8 want[Bits / 8], want1[Bits / 8];
	ref::xxh<X>(seed, msg, a + b, want1);
	ref::xxh<X>(seed, msg, n, want);
	xxhash<Bits> h{seed};
	h.update(bytes(msg, a)).update(bytes(msg + a, b));
	const auto & ch = h;
	auto d1 = ch.final();
	std::array<std::byte, Bits / 8> d2;
	ch.final(d2);
	sym_check_eq(d1.data(), want1, Bits / 8, "final() after two updates");
	sym_check_eq(d2.data(), want1, Bits / 8, "final() again, into a span");
	h.update(bytes(msg + a + b, c));
	auto d3 = h.final();
	sym_check_eq(d3.data(), want, Bits / 8, "final() after going on");
	sym_out(d3.data(), Bits / 8, "digest");
	sym_reach("end");
}
// A hasher given one stripe and `used` more bytes through the public interface; if it keeps (lanes, buffer, length) the way this
// harness understands, the lanes and the number of earlier stripes are replaced by arbitrary ones (total below 2^62 bytes).
template <unsigned Bits, typename S> bool arbitrary(xxhash<Bits> & h, S seed, S * acc, u8 * pend, size_t used, uint64_t & total) {
	using X = typename sel<Bits>::X;
	constexpr size_t B = X::stripe_size;
	if constexpr (requires { h.length; h.internal_state[0]; h.buffer[0]; h.seed; }) {
		if (sizeof(h) > sizeof(h.length) + sizeof(h.internal_state) + sizeof(h.buffer) + sizeof(h.seed) + alignof(xxhash<Bits>)) return false; // more state than this knows
		static u8 warm[2 * B];
		sym_bytes(warm, B + used, "earlier");
		h.update(bytes(warm, B + used));
		S G[4];
		for (int i = 0; i < 4; i++) G[i] = h.internal_state[i];
		X::init(acc, seed);
		X::stripe(acc, warm);
		if (h.length != B + used || !sym_same(G, acc, sizeof G, "state-form") || (used && !sym_same(&h.buffer[0], warm + B, used, "buffer-form"))) return false;
		acc[0] = sel<Bits>::word("a0"); acc[1] = sel<Bits>::word("a1"); acc[2] = sel<Bits>::word("a2"); acc[3] = sel<Bits>::word("a3");
		uint64_t blocks = sym_u64("blocks") % ((1ull << 62) / B);
		sym_assume(blocks >= 1 && blocks < (1ull << 62) / B - 64); // at least one: the lanes matter only then
		total = blocks * B + used;
		for (int i = 0; i < 4; i++) h.internal_state[i] = acc[i];
		h.length = (decltype(h.length))total;
		for (size_t i = 0; i < used; i++) pend[i] = warm[B + i];
		return true;
	} else return false;
}
template <unsigned Bits, typename T> void observe(xxhash<Bits> h, T seed, const T * lanes, const u8 * pend, size_t used, uint64_t total, size_t m) {
	using X = typename sel<Bits>::X;
	constexpr size_t B = X::stripe_size;
	u8 buf[3 * B], want[Bits / 8];
	T acc[4];
	for (unsigned i = 0; i < 4; i++) acc[i] = lanes[i];
	for (size_t i = 0; i < used; i++) buf[i] = pend[i];
	for (size_t i = 0; i < m; i++) buf[used + i] = (u8)(i * 29 + 7);
	h.update(bytes(buf + used, m));
	size_t n = used + m, off = 0;
	for (; off + B <= n; off += B) X::stripe(acc, buf + off);
	T r = X::finish(acc, seed, total + m, buf + off, n - off);
	for (unsigned i = 0; i < sizeof(r); ++i) want[i] = (u8)(r >> (8 * (sizeof(r) - 1 - i)));
	auto d = h.final();
	sym_check_eq(d.data(), want, Bits / 8, "digest after going on from an arbitrary state");
}
// one update of m bytes from an arbitrary reachable state
template <unsigned Bits> void step(size_t used, size_t m) {
	using X = typename sel<Bits>::X;
	using T = typename X::T;
	constexpr size_t B = X::stripe_size;
	static u8 in[1100], buf[1200];
	T seed = sel<Bits>::seed(), acc[4];
	xxhash<Bits> h{seed};
	uint64_t total;
	if (!arbitrary<Bits>(h, seed, acc, buf, used, total)) { sym_reach("not-representable"); return; }
	sym_bytes(in, m, "in");
	h.update(bytes(in, m));
	for (size_t i = 0; i < m; i++) buf[used + i] = in[i];
	size_t n = used + m, off = 0;
	for (; off + B <= n; off += B) X::stripe(acc, buf + off);
	// what the caller can see: the digest now
	u8 want[Bits / 8];
	T r = X::finish(acc, seed, total + m, buf + off, n - off);
	for (unsigned i = 0; i < sizeof(r); ++i) want[i] = (u8)(r >> (8 * (sizeof(r) - 1 - i)));
	auto d = h.final();
	sym_check_eq(d.data(), want, Bits / 8, "digest after one update from an arbitrary state");
	bool kept = false;
	if constexpr (requires { h.length; h.internal_state[0]; h.buffer[0]; }) {
		T G[4];
		for (int i = 0; i < 4; i++) G[i] = h.internal_state[i];
		auto wl = (decltype(h.length))(total + m), gl = h.length;
		kept = sym_same(&gl, &wl, sizeof wl, "length-after") && sym_same(G, acc, sizeof G, "lanes-after") && (n == off || sym_same(&h.buffer[0], buf + off, n - off, "buffer-after"));
	}
	if (!kept) {
		observe<Bits>(h, seed, acc, buf + off, n - off, total + m, 1);
		observe<Bits>(h, seed, acc, buf + off, n - off, total + m, B + 3);
		sym_reach("not-inductive");
	}
	sym_out(d.data(), Bits / 8, "digest");
	sym_reach("end");
}
template <unsigned Bits> void step_small() {
	constexpr size_t B = sel<Bits>::X::stripe_size;
	size_t used = sym_range("used", 0, B - 1), m = sym_range("m", 0, 2 * B + 1);
	sym_shard();
	step<Bits>(used, m);
}
template <unsigned Bits> void step_large() { // single updates around and above 255 bytes
	constexpr size_t B = sel<Bits>::X::stripe_size;
	static const size_t U[] = {0, 1, B / 2, B - 1};
	static const size_t M[] = {127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1024};
	size_t used = U[sym_range("used", 0, 3)], m = M[sym_range("m", 0, 11)];
	sym_shard();
	step<Bits>(used, m);
}
template <unsigned Bits> void step_more() { // three to nine stripes at once, every fill level
	constexpr size_t B = sel<Bits>::X::stripe_size;
	size_t used = sym_range("used", 0, B - 1), k = sym_range("k", 0, 6);
	sym_shard();
	const size_t ms[] = {3 * B - used, 3 * B + 1, 4 * B - 1, 5 * B - used + 1, 7 * B, 8 * B - used - 1, 9 * B + 5};
	step<Bits>(used, ms[k]);
}
// final from an arbitrary reachable state: every total length below 2^62, including those beyond 4 GiB
template <unsigned Bits> void finish() {
	using X = typename sel<Bits>::X;
	using T = typename X::T;
	constexpr size_t B = X::stripe_size;
	size_t used = sym_range("used", 0, B - 1);
	sym_shard();
	T seed = sel<Bits>::seed(), acc[4];
	u8 pend[B];
	uint64_t total;
	xxhash<Bits> h{seed};
	if (!arbitrary<Bits>(h, seed, acc, pend, used, total)) { sym_reach("not-representable"); return; }
	auto d = h.final();
	T r = X::finish(acc, seed, total, pend, used);
	u8 want[Bits / 8];
	for (unsigned i = 0; i < sizeof(r); ++i) want[i] = (u8)(r >> (8 * (sizeof(r) - 1 - i)));
	sym_check_eq(d.data(), want, Bits / 8, "digest from an arbitrary state");
	sym_out(d.data(), Bits / 8, "digest");
	sym_reach("end");
}
template <unsigned Bits> void final_span() {
	static const size_t L[] = {0, 1, 15, 16, 17, 31, 32, 47};
	static u8 in[64];
	size_t n = L[sym_range("n", 0, 7)];
	sym_shard();
	sym_bytes(in, n, "in");
	xxhash<Bits> h{sel<Bits>::seed()};
	h.update(bytes(in, n));
	struct { u8 pre[16]; std::byte out[Bits / 8]; u8 post[16]; } box;
	sym_bytes(&box, sizeof box, "box");
	u8 pre[16], post[16];
	memcpy(pre, box.pre, 16); memcpy(post, box.post, 16);
	h.final(std::span<std::byte, Bits / 8>(box.out, Bits / 8));
	auto v = h.final();
	sym_check_eq(v.data(), box.out, Bits / 8, "final(span) and final() agree");
	sym_check_eq(box.pre, pre, 16, "nothing written before the digest");
	sym_check_eq(box.post, post, 16, "nothing written after the digest");
	sym_out(box.out, Bits / 8, "digest");
	sym_reach("end");
}
template <unsigned Bits> void copies() {
	constexpr size_t B = sel<Bits>::X::stripe_size;
	static u8 in[80], x[80], y[80];
	static const size_t L[] = {0, 1, 9, B - 1, B, B + 1};
	size_t n = L[sym_range("n", 0, 5)], i = L[sym_range("i", 0, 4)], j = L[sym_range("j", 0, 3)];
	sym_shard();
	sym_bytes(in, n, "in"); sym_bytes(x, i, "x"); sym_bytes(y, j, "y");
	auto seed = sel<Bits>::seed();
	xxhash<Bits> a{seed};
	a.update(bytes(in, n));
	xxhash<Bits> b(a);
	a.update(bytes(x, i));
	b.update(bytes(y, j));
	xxhash<Bits> c{}; // assignment replaces everything, the seed included
	c.update(bytes(y, 3 < j ? 3 : j));
	c = b;
	auto da = a.final(), dc = c.final();
	xxhash<Bits> p{seed}, q{seed};
	auto wa = p.update(bytes(in, n)).update(bytes(x, i)).final();
	auto wc = q.update(bytes(in, n)).update(bytes(y, j)).final();
	sym_check_eq(da.data(), wa.data(), Bits / 8, "original unaffected by its copy");
	sym_check_eq(dc.data(), wc.data(), Bits / 8, "copy continues from where it was taken");
	sym_out(da.data(), Bits / 8, "da"); sym_out(dc.data(), Bits / 8, "dc");
	sym_reach("end");
}
}
SYM_ENTRY(xxh32_digest) { digest<32>(0, 100); }
SYM_ENTRY(xxh64_digest) { digest<64>(0, 140); }
SYM_ENTRY(xxh32_digest_256) { static const int d = 0; (void)d; digest<32>(250, 262); }
SYM_ENTRY(xxh64_digest_256) { digest<64>(250, 262); }
SYM_ENTRY(xxh32_digest_long) { digest<32>(101, 1100); }
SYM_ENTRY(xxh64_digest_long) { digest<64>(141, 1100); }
SYM_ENTRY(xxh32_seed) { default_seed<32>(); }
SYM_ENTRY(xxh64_seed) { default_seed<64>(); }
SYM_ENTRY(xxh32_chunks) { chunks<32>(); }
SYM_ENTRY(xxh64_chunks) { chunks<64>(); }
SYM_ENTRY(xxh32_step) { step_small<32>(); }
SYM_ENTRY(xxh64_step) { step_small<64>(); }
SYM_ENTRY(xxh32_step_more) { step_more<32>(); }
SYM_ENTRY(xxh64_step_more) { step_more<64>(); }
SYM_ENTRY(xxh32_step_large) { step_large<32>(); }
SYM_ENTRY(xxh64_step_large) { step_large<64>(); }
SYM_ENTRY(xxh32_finish) { finish<32>(); }
SYM_ENTRY(xxh64_finish) { finish<64>(); }
SYM_ENTRY(xxh32_final_span) { final_span<32>(); }
SYM_ENTRY(xxh64_final_span) { final_span<64>(); }
SYM_ENTRY(xxh32_copies) { copies<32>(); }
SYM_ENTRY(xxh64_copies) { copies<64>(); }
