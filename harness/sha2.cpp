#include "inc.hpp"

namespace {
// ------------------------------------------------------------------ public API, whole messages
template <typename H, typename W, size_t Out> void digest(const typename W::word * iv, uint64_t lo, uint64_t hi) {
	static u8 msg[1024];
	size_t n = sym_range("n", lo, hi);
	sym_shard();
	sym_bytes(msg, n, "msg");
	u8 got[Out], want[Out];
	auto v = H{}.update(bytes(msg, n)).final();
	static_assert(sizeof(v) == Out);
	for (size_t i = 0; i < Out; i++) got[i] = (u8)v[i];
	ref::sha2<W>(iv, msg, n, want, Out);
	sym_check_eq(got, want, Out, "digest equals FIPS 180-4");
	sym_out(got, Out, "digest");
	sym_reach("end");
}
template <unsigned T> void digest_t(uint64_t lo, uint64_t hi) {
	uint64_t iv[8];
	ref::sha512t_iv(T, iv);
	digest<cthash::sha512t<T>, ref::W64, T / 8>(iv, lo, hi);
}
// three updates of one message, sizes from a boundary-rich list, then final
template <typename H, typename W, size_t Out> void chunks(const typename W::word * iv) {
	constexpr size_t B = W::block;
	static const size_t A[] = {0, 1, B - 1, B, B + 1, 3};
	static const size_t C[] = {0, 1, 2, B / 2, B - 4, B - 1, B, B + 1, B + B / 2, 2 * B - 1, 2 * B, 2 * B + 1, 7};
	static const size_t D[] = {0, 1, B - 9, B - 1, B, B + 2};
	static u8 msg[8 * B];
	size_t a = A[sym_range("a", 0, 5)], b = C[sym_range("b", 0, 12)], c = D[sym_range("c", 0, 5)];
	sym_shard();
	size_t n = a + b + c;
	sym_bytes(msg, n, "msg");
	u8 got[Out], want[Out];
	H h{};
	h.update(bytes(msg, a));
	h.update(bytes(msg + a, b));
	h.update(bytes(msg + a + b, c));
	sym_check(h.size() == n, "size() is the number of bytes given");
	auto v = h.final();
	for (size_t i = 0; i < Out; i++) got[i] = (u8)v[i];
	ref::sha2<W>(iv, msg, n, want, Out);
	sym_check_eq(got, want, Out, "digest of a message given in three pieces");
	sym_out(got, Out, "digest");
	sym_reach("end");
}
// ------------------------------------------------------------------ arbitrary reachable states
// A hasher that was given one block and `used` more bytes through the public interface; if it keeps (chaining value, pending
// bytes, total length) the way this harness understands, the chaining value and the number of earlier blocks are then
// replaced by arbitrary ones. Otherwise nothing is claimed here ("not-representable") and the whole-message entries decide alone.
template <typename H, typename Cfg, typename W> bool arbitrary(H & h, typename W::word * A, u8 * pend, size_t used, uint64_t & total, const typename W::word * iv) {
	using I = cthash::internal_hasher<Cfg>;
	if constexpr (requires(I i) { i.hash[0]; i.total_length; i.block[0]; i.block_used; }) {
		if (sizeof(I) > sizeof(I::hash) + sizeof(I::total_length) + sizeof(I::block) + sizeof(I::block_used) + alignof(I)) return false; // more state than this knows
		constexpr size_t B = W::block;
		static u8 warm[2 * B];
		sym_bytes(warm, B + used, "earlier");
		h.update(bytes(warm, B + used));
		I & s = (I &)h;
		typename W::word X[8], Y[8];
		for (unsigned i = 0; i < 8; i++) { X[i] = iv[i]; Y[i] = s.hash[i]; }
		ref::sha2_compress<W>(warm, X);
		if (s.total_length != B + used || s.block_used != used || !sym_same(X, Y, sizeof X, "state-form") || (used && !sym_same(&s.block[0], warm + B, used, "block-form"))) return false;
		sym_bytes(A, 8 * sizeof(A[0]), "H");
		uint64_t blocks = sym_u64("blocks") % ((1ull << 61) / B); // every number of earlier blocks with total < 2^61 bytes, less room for one update
		sym_assume(blocks < (1ull << 61) / B - 8);
		total = blocks * B + used;
		for (unsigned i = 0; i < 8; i++) s.hash[i] = A[i];
		s.total_length = total;
		for (size_t i = 0; i < used; i++) pend[i] = warm[B + i];
		return true;
	} else return false;
}
// the digest of (chaining value, pending bytes, total) followed by m more bytes
template <typename H, typename W, size_t Out> void observe(H h, const typename W::word * chain, const u8 * pend, size_t used, uint64_t total, size_t m) {
	constexpr size_t B = W::block;
	u8 buf[3 * B], want[Out];
	typename W::word A[8];
	for (unsigned i = 0; i < 8; i++) A[i] = chain[i];
	for (size_t i = 0; i < used; i++) buf[i] = pend[i];
	for (size_t i = 0; i < m; i++) buf[used + i] = (u8)(i * 29 + 7);
	h.update(bytes(buf + used, m));
	size_t n = used + m, off = 0;
	for (; off + B <= n; off += B) ref::sha2_compress<W>(buf + off, A);
	auto o = h.final();
	ref::sha2_finish<W>(A, buf + off, n - off, total + m);
	ref::sha2_output<W>(A, want, Out);
	sym_check_eq(o.data(), want, Out, "digest after one update of an arbitrary state");
}
template <typename H, typename Cfg, typename W, size_t Out> void step(size_t used, size_t m, const typename W::word * iv) {
	using I = cthash::internal_hasher<Cfg>;
	constexpr size_t B = W::block;
	static u8 in[9 * B + 16], buf[10 * B + 16];
	H h{};
	typename W::word A[8];
	uint64_t total;
	if (!arbitrary<H, Cfg, W>(h, A, buf, used, total, iv)) { sym_reach("not-representable"); return; }
	sym_bytes(in, m, "in");
	h.update(bytes(in, m));
	// reference: compress every full block of pending . in
	for (size_t i = 0; i < m; i++) buf[used + i] = in[i];
	size_t n = used + m, off = 0;
	for (; off + B <= n; off += B) ref::sha2_compress<W>(buf + off, A);
	sym_check((uint64_t)h.size() == total + m, "size() after one update");
	bool kept = false; // still in the form assumed above? then this case is one step of an induction, and final() is the business of C03
	if constexpr (requires(I i) { i.hash[0]; i.total_length; i.block[0]; i.block_used; }) {
		I & s = (I &)h;
		typename W::word G[8];
		for (unsigned i = 0; i < 8; i++) G[i] = s.hash[i];
		size_t gu = s.block_used; uint64_t gt = (uint64_t)s.total_length, wt = total + m;
		kept = gu == n - off && sym_same(&gt, &wt, 8, "length-after") && sym_same(G, A, sizeof G, "chain-after") && (n == off || sym_same(&s.block[0], buf + off, n - off, "block-after"));
		sym_out(G, sizeof G, "state");
	}
	if (!kept) { // otherwise what is observable decides: the digest now, and after more input
		observe<H, W, Out>(h, A, buf + off, n - off, total + m, 0);
		observe<H, W, Out>(h, A, buf + off, n - off, total + m, 1);
		observe<H, W, Out>(h, A, buf + off, n - off, total + m, B + 3);
		sym_reach("not-inductive");
	}
	sym_reach("end");
}
template <typename H, typename Cfg, typename W, size_t Out> void step_all(const typename W::word * iv) {
	size_t used = sym_range("used", 0, W::block - 1), m = sym_range("m", 0, 2 * W::block + 1);
	sym_shard();
	step<H, Cfg, W, Out>(used, m, iv);
}
template <typename H, typename Cfg, typename W, size_t Out> void step_some(const typename W::word * iv) { // all fill levels, chunk sizes around every boundary
	constexpr size_t B = W::block;
	size_t used = sym_range("used", 0, B - 1), k = sym_range("k", 0, 10);
	sym_shard();
	if (k > 8 && used % 8 > 1 && used % 8 < 7) return;
	const size_t ms[] = {0, 1, B - used - 1, B - used, B - used + 1, 2 * B - used - 1, 2 * B - used, 2 * B - used + 1, 3 * B - used + 1, 5 * B - used - 1, 8 * B + 3};
	step<H, Cfg, W, Out>(used, ms[k], iv);
}
// final from an arbitrary reachable state
template <typename H, typename Cfg, typename W, size_t Out> void finish(const typename W::word * iv) {
	size_t used = sym_range("used", 0, W::block - 1);
	sym_shard();
	H h{};
	typename W::word A[8];
	u8 pend[W::block];
	uint64_t total;
	if (!arbitrary<H, Cfg, W>(h, A, pend, used, total, iv)) { sym_reach("not-representable"); return; }
	sym_check((uint64_t)h.size() == total, "size() of an arbitrary state");
	auto o = h.final();
	u8 want[Out];
	ref::sha2_finish<W>(A, pend, used, total);
	ref::sha2_output<W>(A, want, Out);
	sym_check_eq(o.data(), want, Out, "digest from an arbitrary state");
	sym_out(o.data(), Out, "digest");
	sym_reach("end");
}
// ------------------------------------------------------------------ size()
template <typename H, typename Cfg> void size_() {
	static u8 in[520];
	static const size_t L[] = {0, 1, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511};
	size_t a = L[sym_range("a", 0, 13)], b = L[sym_range("b", 0, 13)], c = L[sym_range("c", 0, 3)];
	sym_shard();
	sym_bytes(in, 511, "in");
	H h{};
	sym_check(h.size() == 0, "size() of a new hasher is zero");
	h.update(bytes(in, a));
	sym_check(h.size() == a, "size() after one update");
	h.update(bytes(in, b)).update(bytes(in, c));
	sym_check(h.size() == a + b + c, "size() after three updates");
	auto before = h.size();
	(void)h.final();
	H g(h);
	sym_check(g.size() == h.size(), "size() of a copy");
	uint64_t z = (uint64_t)before;
	sym_out(&z, 8, "size");
	sym_reach("end");
}
// ------------------------------------------------------------------ final(span): exact extent and agreement with final()
template <typename H, size_t Out> void final_span() {
	static u8 in[300];
	static const size_t L[] = {0, 1, 55, 56, 63, 64, 111, 112, 127, 128, 143, 144, 200};
	size_t n = L[sym_range("n", 0, 12)];
	sym_shard();
	sym_bytes(in, n, "in");
	H a{}, b{};
	a.update(bytes(in, n));
	b.update(bytes(in, n));
	struct { u8 pre[16]; std::byte out[Out]; u8 post[16]; } box;
	sym_bytes(&box, sizeof box, "box");
	u8 pre[16], post[16];
	memcpy(pre, box.pre, 16); memcpy(post, box.post, 16);
	a.final(std::span<std::byte, Out>(box.out, Out));
	auto v = b.final();
	sym_check_eq(v.data(), box.out, Out, "final(span) and final() agree");
	sym_check_eq(box.pre, pre, 16, "nothing written before the digest");
	sym_check_eq(box.post, post, 16, "nothing written after the digest");
	sym_out(box.out, Out, "digest");
	sym_reach("end");
}
// ------------------------------------------------------------------ copies are independent
template <typename H, size_t Out> void copies() {
	static u8 in[160], x[160], y[160];
	static const size_t L[] = {0, 1, 63, 64, 70, 127, 128, 140};
	size_t n = L[sym_range("n", 0, 7)], i = L[sym_range("i", 0, 5)], j = L[sym_range("j", 0, 3)];
	sym_shard();
	sym_bytes(in, n, "in"); sym_bytes(x, i, "x"); sym_bytes(y, j, "y");
	H a{};
	a.update(bytes(in, n));
	H b(a);
	a.update(bytes(x, i));
	b.update(bytes(y, j));
	H c(std::move(b));
	auto da = a.final();
	auto dc = c.final();
	H p{}, q{};
	auto wa = p.update(bytes(in, n)).update(bytes(x, i)).final();
	auto wc = q.update(bytes(in, n)).update(bytes(y, j)).final();
	sym_check_eq(da.data(), wa.data(), Out, "original unaffected by its copy");
	sym_check_eq(dc.data(), wc.data(), Out, "copy continues from where it was taken");
	sym_out(da.data(), Out, "da"); sym_out(dc.data(), Out, "dc");
	sym_reach("end");
}
template <typename C> struct cfg_of;
template <typename C> struct cfg_of<cthash::hasher<C>> { using type = C; };
template <typename H> using cfg = typename cfg_of<H>::type;
using namespace cthash;
using ref::W32; using ref::W64;
}
SYM_ENTRY(sha224_digest) { digest<sha224, W32, 28>(refc::IV224, 0, 140); }
SYM_ENTRY(sha256_digest) { digest<sha256, W32, 32>(refc::IV256, 0, 260); }
SYM_ENTRY(sha384_digest) { digest<sha384, W64, 48>(refc::IV384, 0, 270); }
SYM_ENTRY(sha512_digest) { digest<sha512, W64, 64>(refc::IV512, 0, 400); }
SYM_ENTRY(sha512_224_digest) { digest_t<224>(0, 260); }
SYM_ENTRY(sha512_256_digest) { digest_t<256>(0, 260); }
SYM_ENTRY(sha256_digest_long) { digest<sha256, W32, 32>(refc::IV256, 261, 1000); }
SYM_ENTRY(sha512_digest_long) { digest<sha512, W64, 64>(refc::IV512, 401, 1000); }
SYM_ENTRY(sha256_chunks) { chunks<sha256, W32, 32>(refc::IV256); }
SYM_ENTRY(sha512_chunks) { chunks<sha512, W64, 64>(refc::IV512); }
SYM_ENTRY(sha224_chunks) { chunks<sha224, W32, 28>(refc::IV224); }
SYM_ENTRY(sha384_chunks) { chunks<sha384, W64, 48>(refc::IV384); }
SYM_ENTRY(sha256_step) { step_some<sha256, cfg<sha256>, W32, 32>(refc::IV256); }
SYM_ENTRY(sha256_step_all) { step_all<sha256, cfg<sha256>, W32, 32>(refc::IV256); }
SYM_ENTRY(sha256_finish) { finish<sha256, cfg<sha256>, W32, 32>(refc::IV256); }
SYM_ENTRY(sha224_step) { step_some<sha224, cfg<sha224>, W32, 28>(refc::IV224); }
SYM_ENTRY(sha224_step_all) { step_all<sha224, cfg<sha224>, W32, 28>(refc::IV224); }
SYM_ENTRY(sha224_finish) { finish<sha224, cfg<sha224>, W32, 28>(refc::IV224); }
SYM_ENTRY(sha512_step) { step_some<sha512, cfg<sha512>, W64, 64>(refc::IV512); }
SYM_ENTRY(sha512_step_all) { step_all<sha512, cfg<sha512>, W64, 64>(refc::IV512); }
SYM_ENTRY(sha512_finish) { finish<sha512, cfg<sha512>, W64, 64>(refc::IV512); }
SYM_ENTRY(sha384_step) { step_some<sha384, cfg<sha384>, W64, 48>(refc::IV384); }
SYM_ENTRY(sha384_step_all) { step_all<sha384, cfg<sha384>, W64, 48>(refc::IV384); }
SYM_ENTRY(sha384_finish) { finish<sha384, cfg<sha384>, W64, 48>(refc::IV384); }
SYM_ENTRY(sha512_224_step) { uint64_t iv[8]; ref::sha512t_iv(224, iv); step_some<sha512t<224>, cfg<sha512t<224>>, W64, 28>(iv); }
SYM_ENTRY(sha512_224_step_all) { uint64_t iv[8]; ref::sha512t_iv(224, iv); step_all<sha512t<224>, cfg<sha512t<224>>, W64, 28>(iv); }
SYM_ENTRY(sha512_224_finish) { uint64_t iv[8]; ref::sha512t_iv(224, iv); finish<sha512t<224>, cfg<sha512t<224>>, W64, 28>(iv); }
SYM_ENTRY(sha512_256_step) { uint64_t iv[8]; ref::sha512t_iv(256, iv); step_some<sha512t<256>, cfg<sha512t<256>>, W64, 32>(iv); }
SYM_ENTRY(sha512_256_step_all) { uint64_t iv[8]; ref::sha512t_iv(256, iv); step_all<sha512t<256>, cfg<sha512t<256>>, W64, 32>(iv); }
SYM_ENTRY(sha512_256_finish) { uint64_t iv[8]; ref::sha512t_iv(256, iv); finish<sha512t<256>, cfg<sha512t<256>>, W64, 32>(iv); }
SYM_ENTRY(sha256_size) { size_<sha256, cfg<sha256>>(); }
SYM_ENTRY(sha512_size) { size_<sha512, cfg<sha512>>(); }
SYM_ENTRY(sha384_size) { size_<sha384, cfg<sha384>>(); }
SYM_ENTRY(sha224_final_span) { final_span<sha224, 28>(); }
SYM_ENTRY(sha256_final_span) { final_span<sha256, 32>(); }
SYM_ENTRY(sha384_final_span) { final_span<sha384, 48>(); }
SYM_ENTRY(sha512_final_span) { final_span<sha512, 64>(); }
SYM_ENTRY(sha512_224_final_span) { final_span<sha512t<224>, 28>(); }
SYM_ENTRY(sha512_256_final_span) { final_span<sha512t<256>, 32>(); }
SYM_ENTRY(sha256_copies) { copies<sha256, 32>(); }
SYM_ENTRY(sha512_copies) { copies<sha512, 64>(); }
SYM_ENTRY(sha512_224_copies) { copies<sha512t<224>, 28>(); }
