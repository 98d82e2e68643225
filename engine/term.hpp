// Hash-consed bit-vector terms (width 1..64) with word-level normalisation.
// Every term carries NS concrete sample evaluations; every simplification is checked against them.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <unistd.h>

static const int NS = 8;

enum class Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, SLT };

struct Term {
	Op op;
	uint8_t w;
	uint8_t nargs;
	uint8_t undef; // depends on an uninitialised byte
	uint32_t id;
	uint64_t imm; // CONST value, EXTRACT low bit, VAR index
	Term * a[3];
	Term * hnext;
	Term * rep; // proven-equal representative (never a younger term)
	uint64_t hash;
	uint64_t sim[NS];
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; bool undef; };

struct TermDB {
	std::vector<Term *> arena; // by id
	std::vector<Term *> freelist;
	std::vector<Term *> buckets;
	std::vector<VarInfo> vars; // index = imm of VAR
	uint64_t rng;
	uint64_t rewrites = 0, created = 0;
	bool audit = false;
	void (*audit_cb)(Op, unsigned, uint64_t, Term *, Term *, Term *, Term *) = nullptr;

	TermDB(uint64_t seed) : rng(seed * 0x9E3779B97F4A7C15ull + 12345) { buckets.resize(1 << 20, nullptr); }
	uint64_t rnd() {
		uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	size_t mark() const { return arena.size(); }
	void truncate(size_t m) {
		while (arena.size() > m) {
			Term * t = arena.back();
			arena.pop_back();
			size_t b = t->hash & (buckets.size() - 1);
			// LIFO: chain heads are the newest
			Term ** p = &buckets[b];
			while (*p != t) p = &(*p)->hnext;
			*p = t->hnext;
			if (t->op == Op::VAR && t->imm + 1 == vars.size()) vars.pop_back();
			freelist.push_back(t);
		}
	}
	Term * alloc() {
		if (!freelist.empty()) { Term * t = freelist.back(); freelist.pop_back(); return t; }
		static Term * chunk = nullptr; static size_t left = 0;
		if (!left) { chunk = (Term *)malloc(sizeof(Term) * 65536); if (!chunk) abort(); left = 65536; }
		left--;
		return chunk++;
	}
	static uint64_t h(Op op, unsigned w, uint64_t imm, Term * x, Term * y, Term * z) {
		uint64_t r = (uint64_t)op * 0x9E3779B97F4A7C15ull + w;
		auto mix = [&](uint64_t v) { r ^= v; r *= 0xBF58476D1CE4E5B9ull; r ^= r >> 29; };
		mix(imm); mix(x ? x->id + 1 : 0); mix(y ? y->id + 1 : 0); mix(z ? z->id + 1 : 0);
		return r ^ (r >> 32);
	}
	static uint64_t eval1(Op op, unsigned w, uint64_t imm, unsigned wa, unsigned wb, uint64_t x, uint64_t y, uint64_t z) {
		uint64_t m = maskw(w);
		switch (op) {
		case Op::CONST: return imm;
		case Op::ADD: return (x + y) & m;
		case Op::SUB: return (x - y) & m;
		case Op::MUL: return (x * y) & m;
		case Op::UDIV: return y ? x / y : m;
		case Op::UREM: return y ? x % y : x;
		case Op::SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
		case Op::SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
		case Op::AND: return x & y;
		case Op::OR: return x | y;
		case Op::XOR: return x ^ y;
		case Op::SHL: return y >= w ? 0 : (x << y) & m;
		case Op::LSHR: return y >= w ? 0 : x >> y;
		case Op::ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? (w - 1) : y)) & m;
		case Op::CONCAT: return (x << wb) | y;
		case Op::EXTRACT: return (x >> imm) & m;
		case Op::SEXT: return (uint64_t)sx(x, wa) & m;
		case Op::ITE: return x ? y : z;
		case Op::EQ: return x == y;
		case Op::ULT: return x < y;
		case Op::SLT: return sx(x, wa) < sx(y, wa);
		default: abort();
		}
	}
	Term * intern(Op op, unsigned w, uint64_t imm, Term * x = nullptr, Term * y = nullptr, Term * z = nullptr) {
		uint64_t hh = h(op, w, imm, x, y, z);
		size_t b = hh & (buckets.size() - 1);
		for (Term * t = buckets[b]; t; t = t->hnext)
			if (t->hash == hh && t->op == op && t->w == w && t->imm == imm && t->a[0] == x && t->a[1] == y && t->a[2] == z) return t;
		Term * t = alloc();
		t->op = op; t->w = (uint8_t)w; t->imm = imm; t->a[0] = x; t->a[1] = y; t->a[2] = z;
		t->nargs = z ? 3 : y ? 2 : x ? 1 : 0; t->rep = nullptr;
		t->undef = (x && x->undef) || (y && y->undef) || (z && z->undef);
		t->id = (uint32_t)arena.size(); t->hash = hh;
		if (op != Op::VAR)
			for (int i = 0; i < NS; i++) t->sim[i] = eval1(op, w, imm, x ? x->w : 0, y ? y->w : 0, x ? x->sim[i] : 0, y ? y->sim[i] : 0, z ? z->sim[i] : 0);
		t->hnext = buckets[b]; buckets[b] = t;
		arena.push_back(t);
		created++;
		return t;
	}
	Term * var(const std::string & name, unsigned w, bool undef = false) {
		uint64_t idx = vars.size();
		vars.push_back({name, undef});
		Term * t = intern(Op::VAR, w, idx);
		t->undef = undef;
		for (int i = 0; i < NS; i++) t->sim[i] = rnd() & maskw(w);
		t->sim[0] = 0;
		t->sim[1] = maskw(w);
		t->sim[2] = (rnd() & 1) ? rnd() & maskw(w) & rnd() : (rnd() & 0x7f) & maskw(w);
		return t;
	}
	Term * cst(uint64_t v, unsigned w) { return intern(Op::CONST, w, v & maskw(w)); }
	static bool isc(Term * t) { return t->op == Op::CONST; }
	static bool isc(Term * t, uint64_t v) { return t->op == Op::CONST && t->imm == v; }

	// ---- public constructor with simplification and self-check
	Term * mk(Op op, unsigned w, uint64_t imm, Term * x, Term * y = nullptr, Term * z = nullptr) {
		bool allc = isc(x) && (!y || isc(y)) && (!z || isc(z));
		if (allc) return cst(eval1(op, w, imm, x->w, y ? y->w : 0, x->imm, y ? y->imm : 0, z ? z->imm : 0), w);
		Term * r = simp(op, w, imm, x, y, z);
		if (!r) return intern(op, w, imm, x, y, z);
		rewrites++;
		if (r->w != w) bad(op, w, imm, x, y, z, r);
		for (int i = 0; i < NS; i++)
			if (r->sim[i] != eval1(op, w, imm, x->w, y ? y->w : 0, x->sim[i], y ? y->sim[i] : 0, z ? z->sim[i] : 0)) bad(op, w, imm, x, y, z, r);
		if (audit && audit_cb) audit_cb(op, w, imm, x, y, z, r);
		return r;
	}
	void bad(Op op, unsigned w, uint64_t imm, Term * x, Term * y, Term * z, Term * r) {
		fprintf(stderr, "ENGINE BUG: simplifier mismatch op=%d w=%u imm=%llu\n x=%s\n y=%s\n r=%s\n", (int)op, w, (unsigned long long)imm, str(x, 4).c_str(), y ? str(y, 4).c_str() : "", str(r, 4).c_str());
		(void)z;
		_exit(3);
	}
	Term * extract(Term * t, unsigned lo, unsigned w) { return (lo == 0 && w == t->w) ? t : mk(Op::EXTRACT, w, lo, t); }
	Term * concat(Term * hi, Term * lo) { return mk(Op::CONCAT, hi->w + lo->w, 0, hi, lo); }
	Term * zext(Term * t, unsigned w) { return w == t->w ? t : concat(cst(0, w - t->w), t); }
	Term * sext(Term * t, unsigned w) { return w == t->w ? t : mk(Op::SEXT, w, 0, t); }
	Term * ite(Term * c, Term * x, Term * y) { return mk(Op::ITE, x->w, 0, c, x, y); }
	Term * bin(Op op, Term * x, Term * y) { return mk(op, x->w, 0, x, y); }
	Term * eq(Term * x, Term * y) { return mk(Op::EQ, 1, 0, x, y); }
	Term * lnot(Term * x) { return bin(Op::XOR, x, cst(maskw(x->w), x->w)); }
	Term * land(Term * x, Term * y) { return bin(Op::AND, x, y); }
	Term * lor(Term * x, Term * y) { return bin(Op::OR, x, y); }

	// number of top bits known to be zero
	unsigned lzb(Term * t, int d = 4) {
		switch (t->op) {
		case Op::CONST: { unsigned n = 0; for (int i = t->w - 1; i >= 0 && !((t->imm >> i) & 1); i--) n++; return n; }
		case Op::CONCAT: { unsigned n = d ? lzb(t->a[0], d - 1) : 0; if (n == t->a[0]->w && d) n += lzb(t->a[1], d - 1); return n; }
		case Op::ITE: return d ? std::min(lzb(t->a[1], d - 1), lzb(t->a[2], d - 1)) : 0;
		case Op::AND: return d ? std::max(lzb(t->a[0], d - 1), lzb(t->a[1], d - 1)) : 0;
		case Op::OR: case Op::XOR: return d ? std::min(lzb(t->a[0], d - 1), lzb(t->a[1], d - 1)) : 0;
		case Op::UREM: case Op::UDIV: return d ? lzb(t->a[0], d - 1) : 0;
		default: return 0;
		}
	}
	// number of low bits known to be zero
	unsigned tzb(Term * t, int d = 4) {
		switch (t->op) {
		case Op::CONST: { unsigned n = 0; for (; n < t->w && !((t->imm >> n) & 1); n++); return n; }
		case Op::CONCAT: { unsigned n = d ? tzb(t->a[1], d - 1) : 0; if (n == t->a[1]->w && d) n += tzb(t->a[0], d - 1); return n; }
		case Op::ADD: return d ? std::min(tzb(t->a[0], d - 1), tzb(t->a[1], d - 1)) : 0;
		case Op::ITE: return d ? std::min(tzb(t->a[1], d - 1), tzb(t->a[2], d - 1)) : 0;
		default: return 0;
		}
	}
	uint64_t umax(Term * t) { return t->op == Op::CONST ? t->imm : umax_(t, 3); }
	uint64_t umax_(Term * t, int d) {
		uint64_t m = maskw(t->w - lzb(t) ? t->w - lzb(t) : 1);
		if (lzb(t) == t->w) return 0;
		if (t->op == Op::CONST) return t->imm;
		if (!d) return m;
		switch (t->op) {
		case Op::ITE: return std::max(umax_(t->a[1], d - 1), umax_(t->a[2], d - 1));
		case Op::UREM: if (isc(t->a[1]) && t->a[1]->imm) return std::min(m, t->a[1]->imm - 1); return m;
		case Op::ADD: { uint64_t x = umax_(t->a[0], d - 1), y = umax_(t->a[1], d - 1); uint64_t s; if (__builtin_add_overflow(x, y, &s) || s > maskw(t->w)) return m; return std::min(m, s); }
		case Op::CONCAT: { uint64_t x = umax_(t->a[0], d - 1), y = umax_(t->a[1], d - 1); return (x << t->a[1]->w) | y; }
		default: return m;
		}
	}

	struct Piece { Term * t; unsigned lo, w; };
	// pieces from low to high
	void pieces(Term * t, std::vector<Piece> & out) {
		if (t->op == Op::CONCAT) { pieces(t->a[1], out); pieces(t->a[0], out); }
		else if (t->op == Op::CONST) {
			// runs of equal bits
			unsigned i = 0;
			while (i < t->w) {
				unsigned j = i; uint64_t b = (t->imm >> i) & 1;
				while (j < t->w && ((t->imm >> j) & 1) == b) j++;
				out.push_back({t, i, j - i});
				i = j;
			}
		} else out.push_back({t, 0, t->w});
	}
	// piecewise merge: succeeds only if in every segment one side is a trivial constant
	Term * piecewise(Op op, Term * x, Term * y) {
		bool xc = x->op == Op::CONCAT || isc(x), yc = y->op == Op::CONCAT || isc(y);
		if (!xc && !yc) return nullptr;
		std::vector<Piece> p, q;
		pieces(x, p); pieces(y, q);
		if (p.size() > 17 || q.size() > 17) return nullptr;
		if (p.size() + q.size() <= 2) return nullptr;
		struct Seg { int kind; Term * t; unsigned lo, w; uint64_t c; };
		std::vector<Seg> segs;
		size_t i = 0, j = 0; unsigned pi = 0, qj = 0;
		while (i < p.size()) {
			unsigned w = std::min(p[i].w - pi, q[j].w - qj);
			Term *s = p[i].t, *t = q[j].t; unsigned slo = p[i].lo + pi, tlo = q[j].lo + qj;
			bool sc = isc(s), tc = isc(t);
			uint64_t m = maskw(w);
			uint64_t sv = sc ? (s->imm >> slo) & m : 0, tv = tc ? (t->imm >> tlo) & m : 0;
			Seg g{0, nullptr, 0, w, 0};
			if (sc && tc) g = {1, nullptr, 0, w, op == Op::AND ? sv & tv : op == Op::OR ? sv | tv : op == Op::XOR ? sv ^ tv : 0};
			if (op == Op::ADD) {
				if (sc && sv == 0) { if (tc) g = {1, nullptr, 0, w, tv}; else g = {2, t, tlo, w, 0}; }
				else if (tc && tv == 0) { if (sc) g = {1, nullptr, 0, w, sv}; else g = {2, s, slo, w, 0}; }
				else return nullptr;
			} else if (!(sc && tc)) {
				if (!sc && !tc) {
					if (s == t && slo == tlo && op != Op::XOR) g = {2, s, slo, w, 0};
					else return nullptr;
				} else {
					uint64_t v = sc ? sv : tv; Term * o = sc ? t : s; unsigned olo = sc ? tlo : slo;
					if (op == Op::AND) { if (v == 0) g = {1, nullptr, 0, w, 0}; else if (v == m) g = {2, o, olo, w, 0}; else return nullptr; }
					else if (op == Op::OR) { if (v == m) g = {1, nullptr, 0, w, m}; else if (v == 0) g = {2, o, olo, w, 0}; else return nullptr; }
					else { if (v == 0) g = {2, o, olo, w, 0}; else return nullptr; }
				}
			}
			segs.push_back(g);
			pi += w; qj += w;
			if (pi == p[i].w) { i++; pi = 0; }
			if (j < q.size() && qj == q[j].w) { j++; qj = 0; }
		}
		Term * r = nullptr;
		for (auto & g : segs) {
			Term * t = g.kind == 1 ? cst(g.c, g.w) : extract(g.t, g.lo, g.w);
			r = r ? concat(t, r) : t;
		}
		return r;
	}

	Term * simp(Op op, unsigned w, uint64_t imm, Term * x, Term * y, Term * z) {
		uint64_t m = maskw(w);
		switch (op) {
		case Op::ADD: {
			if (isc(x)) std::swap(x, y);
			if (isc(y, 0)) return x;
			if (isc(y) && x->op == Op::ADD && isc(x->a[1])) return mk(Op::ADD, w, 0, x->a[0], cst(y->imm + x->a[1]->imm, w));
			// constants outward
			if (x->op == Op::ADD && isc(x->a[1])) return mk(Op::ADD, w, 0, mk(Op::ADD, w, 0, x->a[0], y), x->a[1]);
			if (!isc(y) && y->op == Op::ADD && isc(y->a[1])) return mk(Op::ADD, w, 0, mk(Op::ADD, w, 0, x, y->a[0]), y->a[1]);
			if (w == 1) return mk(Op::XOR, 1, 0, x, y);
			if (Term * r = piecewise(op, x, y)) return r;
			if (isc(y)) return canon(op, w, x, y, true);
			return canon(op, w, x, y);
		}
		case Op::SUB:
			if (x == y) return cst(0, w);
			if (isc(y)) return mk(Op::ADD, w, 0, x, cst(0 - y->imm, w));
			if (x->op == Op::ADD) { if (x->a[0] == y) return x->a[1]; if (x->a[1] == y) return x->a[0]; if (isc(x->a[1])) return mk(Op::ADD, w, 0, mk(Op::SUB, w, 0, x->a[0], y), x->a[1]); }
			if (y->op == Op::ADD && isc(y->a[1])) return mk(Op::ADD, w, 0, mk(Op::SUB, w, 0, x, y->a[0]), cst(0 - y->a[1]->imm, w));
			return nullptr;
		case Op::MUL:
			if (isc(x)) std::swap(x, y);
			if (isc(y, 0)) return y;
			if (isc(y, 1)) return x;
			if (isc(y) && (y->imm & (y->imm - 1)) == 0) return mk(Op::SHL, w, 0, x, cst(__builtin_ctzll(y->imm), w));
			if (isc(y)) return canon(op, w, x, y, true);
			return canon(op, w, x, y);
		case Op::UDIV:
			if (isc(y) && y->imm && (y->imm & (y->imm - 1)) == 0) return mk(Op::LSHR, w, 0, x, cst(__builtin_ctzll(y->imm), w));
			if (isc(y) && y->imm && umax(x) < y->imm) return cst(0, w);
			return nullptr;
		case Op::UREM:
			if (isc(y) && y->imm && (y->imm & (y->imm - 1)) == 0) return mk(Op::AND, w, 0, x, cst(y->imm - 1, w));
			if (isc(y) && y->imm && umax(x) < y->imm) return x;
			return nullptr;
		case Op::AND:
			if (isc(x)) std::swap(x, y);
			if (x == y) return x;
			if (isc(y, 0)) return y;
			if (isc(y, m)) return x;
			if (isc(y) && x->op == Op::AND && isc(x->a[1])) return mk(op, w, 0, x->a[0], cst(y->imm & x->a[1]->imm, w));
			if (w == 1 && (isnot(x, y))) return cst(0, w);
			if (w > 1) if (Term * r = piecewise(op, x, y)) return r;
			return canon(op, w, x, y, isc(y));
		case Op::OR:
			if (isc(x)) std::swap(x, y);
			if (x == y) return x;
			if (isc(y, 0)) return x;
			if (isc(y, m)) return y;
			if (isc(y) && x->op == Op::OR && isc(x->a[1])) return mk(op, w, 0, x->a[0], cst(y->imm | x->a[1]->imm, w));
			if (w == 1 && isnot(x, y)) return cst(1, w);
			if (w > 1) if (Term * r = piecewise(op, x, y)) return r;
			return canon(op, w, x, y, isc(y));
		case Op::XOR:
			if (isc(x)) std::swap(x, y);
			if (x == y) return cst(0, w);
			if (isc(y, 0)) return x;
			if (isc(y) && x->op == Op::XOR && isc(x->a[1])) return mk(op, w, 0, x->a[0], cst(y->imm ^ x->a[1]->imm, w));
			if (isc(y) && x->op == Op::ITE && isc(x->a[1]) && isc(x->a[2])) return mk(Op::ITE, w, 0, x->a[0], cst(x->a[1]->imm ^ y->imm, w), cst(x->a[2]->imm ^ y->imm, w));
			if (w > 1) if (Term * r = piecewise(op, x, y)) return r;
			if (w > 1) for (int k = 0; k < 2; k++) { // (p ^ a) ^ b with a and b in different places: p ^ (a ^ b)
				Term *u = k ? y : x, *v = k ? x : y;
				if (u->op == Op::XOR && v->op == Op::CONCAT) for (int i = 0; i < 2; i++) if (u->a[i]->op == Op::CONCAT) if (Term * r = piecewise(op, u->a[i], v)) return mk(op, w, 0, u->a[1 - i], r);
			}
			return canon(op, w, x, y, isc(y));
		case Op::SHL:
			if (isc(y)) { uint64_t k = y->imm; if (k == 0) return x; if (k >= w) return cst(0, w); return concat(extract(x, 0, w - (unsigned)k), cst(0, (unsigned)k)); }
			if (isc(x, 0)) return x;
			return nullptr;
		case Op::LSHR:
			if (isc(y)) { uint64_t k = y->imm; if (k == 0) return x; if (k >= w) return cst(0, w); return concat(cst(0, (unsigned)k), extract(x, (unsigned)k, w - (unsigned)k)); }
			if (isc(x, 0)) return x;
			return nullptr;
		case Op::ASHR:
			if (isc(y)) {
				uint64_t k = std::min<uint64_t>(y->imm, w - 1);
				if (k == 0) return x;
				if (lzb(x)) return mk(Op::LSHR, w, 0, x, cst(k, w));
				return sext(extract(x, (unsigned)k, w - (unsigned)k), w);
			}
			return nullptr;
		case Op::EXTRACT: {
			unsigned lo = (unsigned)imm;
			if (lo == 0 && w == x->w) return x;
			switch (x->op) {
			case Op::EXTRACT: return extract(x->a[0], lo + (unsigned)x->imm, w);
			case Op::CONCAT: {
				unsigned lw = x->a[1]->w;
				if (lo >= lw) return extract(x->a[0], lo - lw, w);
				if (lo + w <= lw) return extract(x->a[1], lo, w);
				return concat(extract(x->a[0], 0, lo + w - lw), extract(x->a[1], lo, lw - lo));
			}
			case Op::SEXT:
				if (lo + w <= x->a[0]->w) return extract(x->a[0], lo, w);
				if (lo < x->a[0]->w && lo == 0) return sext(x->a[0], w);
				return nullptr;
			case Op::ITE:
				if ((isc(x->a[1]) || x->a[1]->op == Op::CONCAT) && (isc(x->a[2]) || x->a[2]->op == Op::CONCAT)) return ite(x->a[0], extract(x->a[1], lo, w), extract(x->a[2], lo, w));
				return nullptr;
			case Op::ADD: case Op::SUB: case Op::MUL:
				if (lo == 0 && isc(x->a[1])) return mk(x->op, w, 0, extract(x->a[0], 0, w), extract(x->a[1], 0, w));
				return nullptr;
			case Op::AND: case Op::OR: case Op::XOR:
				if (isc(x->a[1])) return mk(x->op, w, 0, extract(x->a[0], lo, w), extract(x->a[1], lo, w));
				for (int i = 0; i < 2; i++) if (x->a[i]->op == Op::CONCAT) { Term * e = extract(x->a[i], lo, w); if (isc(e)) return mk(x->op, w, 0, extract(x->a[1 - i], lo, w), e); }
				return nullptr;
			default: return nullptr;
			}
		}
		case Op::CONCAT: {
			if (x->op == Op::CONCAT) return concat(x->a[0], concat(x->a[1], y));
			// merge x with the head of y
			Term * head = y->op == Op::CONCAT ? y->a[0] : y;
			Term * rest = y->op == Op::CONCAT ? y->a[1] : nullptr;
			Term * mg = nullptr;
			if (isc(x) && isc(head)) mg = cst((x->imm << head->w) | head->imm, x->w + head->w);
			else {
				Term * bx = x->op == Op::EXTRACT ? x->a[0] : x; unsigned xl = x->op == Op::EXTRACT ? (unsigned)x->imm : 0;
				Term * by = head->op == Op::EXTRACT ? head->a[0] : head; unsigned yl = head->op == Op::EXTRACT ? (unsigned)head->imm : 0;
				if (bx == by && xl == yl + head->w && !isc(bx)) mg = extract(bx, yl, x->w + head->w);
			}
			if (mg) return rest ? concat(mg, rest) : mg;
			// adjacent parts of one word, each possibly xored with something: one xor of the whole
			if (x->op == Op::XOR || head->op == Op::XOR) {
				auto split = [](Term * t, int i, Term *& base, Term *& mask) {
					if (i == 2) { base = t; mask = nullptr; return t->op == Op::EXTRACT; }
					if (t->op != Op::XOR) return false;
					base = t->a[i]; mask = t->a[1 - i];
					return base->op == Op::EXTRACT;
				};
				for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
					Term *bx, *ax, *by, *ay;
					if ((i == 2 && j == 2) || !split(x, i, bx, ax) || !split(head, j, by, ay)) continue;
					if (bx->a[0] != by->a[0] || bx->imm != by->imm + by->w) continue;
					Term * r = bin(Op::XOR, extract(bx->a[0], (unsigned)by->imm, bx->w + by->w), concat(ax ? ax : cst(0, bx->w), ay ? ay : cst(0, by->w)));
					return rest ? concat(r, rest) : r;
				}
			}
			return nullptr;
		}
		case Op::SEXT:
			if (lzb(x)) return zext(x, w);
			if (x->op == Op::SEXT) return sext(x->a[0], w);
			if (x->op == Op::ITE && isc(x->a[1]) && isc(x->a[2])) return ite(x->a[0], sext(x->a[1], w), sext(x->a[2], w));
			return nullptr;
		case Op::ITE:
			if (isc(x)) return x->imm ? y : z;
			if (y == z) return y;
			if (w == 1) {
				if (isc(y, 1) && isc(z, 0)) return x;
				if (isc(y, 0) && isc(z, 1)) return lnot(x);
				if (isc(y, 1)) return lor(x, z);
				if (isc(z, 0)) return land(x, y);
				if (isc(y, 0)) return land(lnot(x), z);
				if (isc(z, 1)) return lor(lnot(x), y);
			}
			if (x->op == Op::XOR && isc(x->a[1], 1)) return ite(x->a[0], z, y);
			if (y->op == Op::ITE && y->a[0] == x) return ite(x, y->a[1], z);
			if (z->op == Op::ITE && z->a[0] == x) return ite(x, y, z->a[2]);
			return nullptr;
		case Op::EQ: {
			if (isc(x)) std::swap(x, y);
			if (x == y) return cst(1, 1);
			if (isc(y)) {
				if (x->w == 1) return y->imm ? x : lnot(x);
				if (x->op == Op::XOR && isc(x->a[1])) return eq(x->a[0], cst(y->imm ^ x->a[1]->imm, x->w));
				if (x->op == Op::ADD && isc(x->a[1])) return eq(x->a[0], cst(y->imm - x->a[1]->imm, x->w));
				if (x->op == Op::ITE && isc(x->a[1]) && isc(x->a[2])) {
					bool t = x->a[1]->imm == y->imm, f = x->a[2]->imm == y->imm;
					if (t && f) return cst(1, 1);
					if (t) return x->a[0];
					if (f) return lnot(x->a[0]);
					return cst(0, 1);
				}
				if (x->op == Op::CONCAT) {
					unsigned lw = x->a[1]->w;
					return land(eq(x->a[0], cst(y->imm >> lw, x->a[0]->w)), eq(x->a[1], cst(y->imm, lw)));
				}
				if (x->op == Op::SEXT) {
					uint64_t low = y->imm & maskw(x->a[0]->w);
					if (((uint64_t)sx(low, x->a[0]->w) & maskw(x->w)) != y->imm) return cst(0, 1);
					return eq(x->a[0], cst(low, x->a[0]->w));
				}
				if (y->imm > umax(x)) return cst(0, 1);
			} else {
				if (x->op == Op::CONCAT && y->op == Op::CONCAT && isc(x->a[0]) && isc(y->a[0])) {
					unsigned k = std::min(x->a[0]->w, y->a[0]->w);
					Term *hx = extract(x, x->w - k, k), *hy = extract(y, y->w - k, k);
					if (hx != hy) return cst(0, 1);
					return eq(extract(x, 0, x->w - k), extract(y, 0, y->w - k));
				}
				if (x->op == Op::SEXT && y->op == Op::SEXT && x->a[0]->w == y->a[0]->w) return eq(x->a[0], y->a[0]);
			}
			return canon(op, w, x, y, isc(y));
		}
		case Op::ULT: {
			if (x == y) return cst(0, 1);
			if (isc(y, 0)) return cst(0, 1);
			if (isc(y, 1)) return eq(x, cst(0, x->w));
			if (isc(x, 0)) return lnot(eq(y, x));
			if (isc(y) && umax(x) < y->imm) return cst(1, 1);
			if (isc(x) && umax(y) <= x->imm) return cst(0, 1);
			unsigned k = std::min(lzb(x), lzb(y));
			if (k && k < x->w) return mk(Op::ULT, 1, 0, extract(x, 0, x->w - k), extract(y, 0, y->w - k));
			return nullptr;
		}
		case Op::SLT:
			if (x == y) return cst(0, 1);
			if (lzb(x) && lzb(y)) return mk(Op::ULT, 1, 0, x, y);
			// compare with constant after SEXT
			if (x->op == Op::SEXT && isc(y)) {
				unsigned iw = x->a[0]->w; int64_t c = sx(y->imm, y->w);
				int64_t lo = -(int64_t)(1ull << (iw - 1)), hi = (int64_t)((1ull << (iw - 1)) - 1);
				if (c > hi) return cst(1, 1);
				if (c <= lo) return cst(0, 1);
				return mk(Op::SLT, 1, 0, x->a[0], cst((uint64_t)c, iw));
			}
			if (y->op == Op::SEXT && isc(x)) {
				unsigned iw = y->a[0]->w; int64_t c = sx(x->imm, x->w);
				int64_t lo = -(int64_t)(1ull << (iw - 1)), hi = (int64_t)((1ull << (iw - 1)) - 1);
				if (c >= hi) return cst(0, 1);
				if (c < lo) return cst(1, 1);
				return mk(Op::SLT, 1, 0, cst((uint64_t)c, iw), y->a[0]);
			}
			if (x->op == Op::SEXT && y->op == Op::SEXT && x->a[0]->w == y->a[0]->w) return mk(Op::SLT, 1, 0, x->a[0], y->a[0]);
			if (lzb(x) && isc(y) && ((y->imm >> (y->w - 1)) & 1)) return cst(0, 1);
			if (lzb(y) && isc(x) && ((x->imm >> (x->w - 1)) & 1)) return cst(1, 1);
			if (isc(y, 0)) return extract(x, x->w - 1, 1);
			return nullptr;
		default: return nullptr;
		}
	}
	static bool isnot(Term * x, Term * y) {
		return (x->op == Op::XOR && isc(x->a[1]) && x->a[1]->imm == maskw(x->w) && x->a[0] == y) || (y->op == Op::XOR && isc(y->a[1]) && y->a[1]->imm == maskw(y->w) && y->a[0] == x);
	}
	// commutative canonical order; constants always second
	Term * canon(Op op, unsigned w, Term * x, Term * y, bool ysecond = false) {
		if (!ysecond && x->id > y->id) std::swap(x, y);
		return intern(op, w, 0, x, y);
	}
	uint64_t eval(Term * t, const std::unordered_map<uint64_t, uint64_t> & varval, std::unordered_map<Term *, uint64_t> & memo) {
		// iterative post-order
		std::vector<Term *> st{t};
		while (!st.empty()) {
			Term * u = st.back();
			if (memo.count(u)) { st.pop_back(); continue; }
			if (u->op == Op::CONST) { memo[u] = u->imm; st.pop_back(); continue; }
			if (u->op == Op::VAR) { auto it = varval.find(u->imm); memo[u] = it == varval.end() ? u->sim[3] : it->second & maskw(u->w); st.pop_back(); continue; }
			bool ready = true;
			for (int i = 0; i < u->nargs; i++) if (!memo.count(u->a[i])) { st.push_back(u->a[i]); ready = false; }
			if (!ready) continue;
			memo[u] = eval1(u->op, u->w, u->imm, u->a[0]->w, u->nargs > 1 ? u->a[1]->w : 0, memo[u->a[0]], u->nargs > 1 ? memo[u->a[1]] : 0, u->nargs > 2 ? memo[u->a[2]] : 0);
			st.pop_back();
		}
		return memo[t];
	}
	std::string str(Term * t, int d) {
		static const char * nm[] = {"c", "v", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "sext", "ite", "eq", "ult", "slt"};
		if (t->op == Op::CONST) { char b[40]; snprintf(b, sizeof b, "0x%llx:%d", (unsigned long long)t->imm, t->w); return b; }
		if (t->op == Op::VAR) return vars[t->imm].name;
		if (!d) return "#" + std::to_string(t->id);
		std::string s = std::string("(") + nm[(int)t->op] + ":" + std::to_string(t->w);
		if (t->op == Op::EXTRACT) s += "@" + std::to_string(t->imm);
		for (int i = 0; i < t->nargs; i++) s += " " + str(t->a[i], d - 1);
		return s + ")";
	}
};
