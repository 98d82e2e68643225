// Symbolic executor for LLVM 18 bitcode produced from the real cthash headers.
// See /verif/DESIGN.md for what is modelled. One process explores one shard of one harness entry point.
#include "term.hpp"
#include <chrono>
#include <csignal>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_set>

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

using namespace llvm;
using u64 = uint64_t;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static struct Opts {
	std::string bc, raw, entry, outdir = ".", concrete;
	u64 seed = 1;
	int shard = 0, nshards = 1;
	double budget = 800;   // seconds for the whole exploration
	unsigned qtimeout = 60000; // ms, full queries
	unsigned ltimeout = 4000; // ms, local lemmas
	u64 max_insts_per_path = 200000000ull;
	int witnesses = 4;
	bool audit = false;      // prove rewrites by the solver
	unsigned auditPer = ~0u; // at most this many instances of a shape that differ only in their constants
	bool verbose = false;
	std::string smtdump;
	int maxviol = 3;
} opt;

// ------------------------------------------------------------------ values
struct Val {
	Term * t = nullptr;
	std::shared_ptr<std::vector<Val>> agg;
	Val() {}
	Val(Term * x): t(x) {}
};
struct Byte { Term * t; uint32_t idx; };
struct Obj {
	u64 size = 0;
	bool alive = true, ro = false, heap = false;
	std::string name;
	std::vector<Byte> b;
};
using ObjP = std::shared_ptr<Obj>;

struct Operand { int slot = -1; Val c; };
struct Inst {
	Instruction * I;
	int dst = -1;
	std::vector<Operand> ops;
};
struct Block { std::vector<Inst> insts; unsigned firstNonPhi = 0; };
struct Fn {
	Function * F;
	int nslots = 0;
	std::vector<Block> blocks;
	DenseMap<const BasicBlock *, unsigned> bbidx;
	std::string name;
};
struct Frame {
	Fn * fn;
	unsigned bb = 0, ip = 0, prev = 0;
	std::vector<Val> regs;
	std::vector<uint32_t> allocas;
	bool returnsTo = false; // caller is waiting at its current instruction
	std::vector<Val> varargs;
};
struct Exc { u64 ptr = 0; const Value * ti = nullptr; std::string tiname; };
struct Choice { std::string name; u64 v; };
struct State {
	std::vector<Frame> st;
	std::vector<ObjP> mem;
	std::vector<Term *> pc;
	uint8_t live = 0xff;
	size_t mark = 0;
	std::vector<Choice> choices;
	std::vector<std::pair<std::string, Term *>> symvars; // every harness symbolic: name -> var (or constant in concrete mode)
	std::vector<std::pair<std::string, std::vector<Term *>>> outs;
	std::vector<Exc> caught;
	Exc inflight;
	u64 insts = 0;
	int checks = 0;
};

struct PathEnd {};
struct Inconclusive { std::string why; };
struct Violation { std::string label, detail; };

// ------------------------------------------------------------------ globals
static TermDB * db;
static LLVMContext * ctxp;
static std::unique_ptr<Module> mod;
static const DataLayout * DL;
static std::map<const Function *, std::unique_ptr<Fn>> fns;
static DenseMap<const GlobalValue *, u64> gaddr;
static std::map<u64, const Function *> fnaddr;
static std::vector<ObjP> initmem;
static std::map<std::string, u64> concrete;
static bool concreteMode = false;
static std::map<std::string, int> typeids;

static struct Stats {
	u64 paths = 0, forks = 0, insts = 0, branches_sym = 0;
	u64 audit_skipped = 0, audit_unproven = 0, q_branch = 0, q_full = 0, q_lemma = 0, q_bounds = 0, q_audit = 0, q_other = 0;
	u64 lemma_cached = 0, xor_equal = 0, lemma_uses = 0;
	u64 eq_checks = 0, eq_bytes = 0, eq_structural = 0, eq_sweep = 0, eq_full = 0, bool_checks = 0, bool_const = 0, bool_solver = 0;
	double z3time = 0;
	u64 bounds_checks = 0;
	u64 skipped_shard = 0;
	size_t maxterms = 0;
} S;
static std::map<std::string, u64> reach;
static std::map<std::string, u64> checkcount;
static std::set<std::string> execfns;
static std::map<std::string, std::pair<u64, u64>> ranges;
static std::vector<std::string> viols; // replay files
static std::vector<std::string> violLabels;
static int nwit = 0;
static std::set<std::string> unsupported_seen;
static double t0;

// ------------------------------------------------------------------ z3
static z3::context * zc;
struct Z3T {
	std::unordered_map<Term *, z3::expr> memo;
	std::unordered_map<Term *, z3::expr> * leaves = nullptr;
	z3::expr boolOf(const z3::expr & e) { return e == zc->bv_val(1, 1); }
	z3::expr bvOf(const z3::expr & b) { return z3::ite(b, zc->bv_val(1, 1), zc->bv_val(0, 1)); }
	z3::expr var(Term * t) { return zc->bv_const(("v" + std::to_string(t->imm)).c_str(), t->w); }
	z3::expr build(Op op, unsigned w, u64 imm, Term * self, const z3::expr & x, const z3::expr * y, const z3::expr * z) {
		(void)self;
		switch (op) {
		case Op::ADD: return x + *y;
		case Op::SUB: return x - *y;
		case Op::MUL: return x * *y;
		case Op::UDIV: return z3::udiv(x, *y);
		case Op::UREM: return z3::urem(x, *y);
		case Op::SDIV: return x / *y;
		case Op::SREM: return z3::srem(x, *y);
		case Op::AND: return x & *y;
		case Op::OR: return x | *y;
		case Op::XOR: return x ^ *y;
		case Op::SHL: return z3::shl(x, *y);
		case Op::LSHR: return z3::lshr(x, *y);
		case Op::ASHR: return z3::ashr(x, *y);
		case Op::CONCAT: return z3::concat(x, *y);
		case Op::EXTRACT: return x.extract(imm + w - 1, imm);
		case Op::SEXT: return z3::sext(x, w - x.get_sort().bv_size());
		case Op::ITE: return z3::ite(boolOf(x), *y, *z);
		case Op::EQ: return bvOf(x == *y);
		case Op::ULT: return bvOf(z3::ult(x, *y));
		case Op::SLT: return bvOf(z3::slt(x, *y));
		default: abort();
		}
	}
	z3::expr tr(Term * t) {
		std::vector<Term *> st{t};
		while (!st.empty()) {
			Term * u = st.back();
			if (memo.count(u)) { st.pop_back(); continue; }
			if (leaves) { auto it = leaves->find(u); if (it != leaves->end()) { memo.emplace(u, it->second); st.pop_back(); continue; } }
			if (u->op == Op::CONST) { memo.emplace(u, zc->bv_val((uint64_t)u->imm, u->w)); st.pop_back(); continue; }
			if (u->op == Op::VAR) { memo.emplace(u, var(u)); st.pop_back(); continue; }
			bool ready = true;
			for (int i = 0; i < u->nargs; i++) if (!memo.count(u->a[i])) { st.push_back(u->a[i]); ready = false; }
			if (!ready) continue;
			z3::expr x = memo.at(u->a[0]);
			if (u->nargs == 1) memo.emplace(u, build(u->op, u->w, u->imm, u, x, nullptr, nullptr));
			else {
				z3::expr y = memo.at(u->a[1]);
				if (u->nargs == 2) memo.emplace(u, build(u->op, u->w, u->imm, u, x, &y, nullptr));
				else { z3::expr z = memo.at(u->a[2]); memo.emplace(u, build(u->op, u->w, u->imm, u, x, &y, &z)); }
			}
			st.pop_back();
		}
		return memo.at(t);
	}
};
using Model = std::unordered_map<u64, u64>;

static void collect_vars(Term * t, std::set<u64> & out, std::unordered_set<Term *> & seen) {
	std::vector<Term *> st{t};
	while (!st.empty()) {
		Term * u = st.back(); st.pop_back();
		if (!seen.insert(u).second) continue;
		if (u->op == Op::VAR) out.insert(u->imm);
		for (int i = 0; i < u->nargs; i++) st.push_back(u->a[i]);
	}
}
static int smtn = 0;
// 1 sat, 0 unsat, -1 unknown. Conjunction of 1-bit terms.
static int solve(const std::vector<Term *> & fs, Model * m, unsigned timeout) {
	double a = now();
	z3::solver s = z3::tactic(*zc, "qfbv").mk_solver();
	z3::params p(*zc);
	p.set("timeout", timeout);
	s.set(p);
	Z3T tr;
	for (Term * f : fs) s.add(tr.tr(f) == zc->bv_val(1, 1));
	if (!opt.smtdump.empty()) { std::ofstream o(opt.smtdump + "/q" + std::to_string(opt.shard) + "_" + std::to_string(smtn++) + ".smt2"); o << s.to_smt2(); }
	z3::check_result r = s.check();
	int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
	if (res == 1 && m) {
		z3::model mm = s.get_model();
		for (unsigned i = 0; i < mm.num_consts(); i++) {
			z3::func_decl d = mm.get_const_decl(i);
			std::string n = d.name().str();
			if (n.size() > 1 && n[0] == 'v') {
				uint64_t v = 0;
				z3::expr e = mm.get_const_interp(d);
				if (Z3_get_numeral_uint64(*zc, e, &v)) (*m)[std::stoull(n.substr(1))] = v;
			}
		}
	}
	S.z3time += now() - a;
	return res;
}
// constraints of pc connected with the variables of f
static std::vector<Term *> relevant(const State & s, Term * f) {
	std::vector<std::set<u64>> vs(s.pc.size());
	for (size_t i = 0; i < s.pc.size(); i++) { std::unordered_set<Term *> seen; collect_vars(s.pc[i], vs[i], seen); }
	std::set<u64> cur; { std::unordered_set<Term *> seen; collect_vars(f, cur, seen); }
	std::vector<bool> in(s.pc.size(), false);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < s.pc.size(); i++) if (!in[i]) {
			bool hit = false;
			for (u64 v : vs[i]) if (cur.count(v)) { hit = true; break; }
			if (hit) { in[i] = true; ch = true; cur.insert(vs[i].begin(), vs[i].end()); }
		}
	}
	std::vector<Term *> r;
	for (size_t i = 0; i < s.pc.size(); i++) if (in[i]) r.push_back(s.pc[i]);
	return r;
}
static int feasible(State & s, Term * f, Model * m, u64 & counter) {
	if (f->op == Op::CONST && f->imm == 0) return 0;
	for (int i = 0; i < NS; i++) if ((s.live >> i) & 1) if (f->sim[i] == 1 && !m) return 1;
	auto fs = relevant(s, f);
	fs.push_back(f);
	counter++;
	int r = solve(fs, m, opt.qtimeout);
	if (r < 0) throw Inconclusive{"solver timeout on a path-feasibility query"};
	return r;
}
static void add_pc(State & s, Term * f) {
	if (f->op == Op::CONST) { if (!f->imm) throw PathEnd{}; return; }
	s.pc.push_back(f);
	for (int i = 0; i < NS; i++) if (((s.live >> i) & 1) && f->sim[i] != 1) s.live &= ~(1 << i);
}

// a full model of the path, extended by m: from z3 over whole pc plus extra
static bool path_model(State & s, Term * extra, Model & m) {
	if (extra && extra->op == Op::CONST && !extra->imm) return false;
	for (int i = NS - 1; i >= 0; i--) if ((s.live >> i) & 1) if (!extra || extra->sim[i] == 1) {
		for (auto & v : s.symvars) if (v.second->op == Op::VAR) m[v.second->imm] = v.second->sim[i];
		return true;
	}
	auto fs = s.pc;
	if (extra) fs.push_back(extra);
	if (fs.empty()) return true;
	S.q_other++;
	int r = solve(fs, &m, opt.qtimeout);
	if (r < 0) throw Inconclusive{"solver timeout computing a path witness"};
	return r == 1;
}

// another model of the path with arbitrary values everywhere the path condition leaves room (samples that satisfy it by chance
// may all be special, such as zero): used to look for a concrete refutation before the solver is asked the whole question
static bool diverse_model(State & s, Model & m) {
	std::set<u64> vs;
	{ std::unordered_set<Term *> seen; for (Term * f : s.pc) collect_vars(f, vs, seen); }
	for (auto & v : s.symvars) if (v.second->op == Op::VAR) m[v.second->imm] = db->rnd() & maskw(v.second->w);
	if (s.pc.empty()) return true;
	auto holds = [&]() { std::unordered_map<Term *, u64> memo; for (Term * f : s.pc) if (!db->eval(f, m, memo)) return false; return true; };
	if (holds()) return true;
	for (unsigned keep : {48u, 16u, 4u, 0u}) {
		auto fs = s.pc;
		if (keep) for (auto & v : s.symvars) if (v.second->op == Op::VAR && vs.count(v.second->imm)) { // a random bit range of every constrained variable stays as drawn
			unsigned w = v.second->w, k = std::min(keep, w * keep / 64 + 1), lo = db->rnd() % (w - std::min(k, w) + 1);
			k = std::min(k, w);
			fs.push_back(db->eq(db->extract(v.second, lo, k), db->cst((m[v.second->imm] >> lo) & maskw(k), k)));
		}
		Model q; S.q_other++;
		int r = solve(fs, &q, 3000);
		if (r != 1) continue;
		for (auto & [k, v] : q) m[k] = v;
		return holds();
	}
	return false;
}

// ------------------------------------------------------------------ equality by sweeping
static std::unordered_map<std::string, bool> lemmaCache;

static void shape(Term * t, int d, std::unordered_map<Term *, int> & num, std::unordered_map<Term *, bool> & leafset, std::string & out, int & next) {
	auto it = num.find(t);
	if (it != num.end()) { out += "#" + std::to_string(it->second) + " "; return; }
	if (t->op == Op::CONST) { char b[32]; snprintf(b, sizeof b, "c%llx:%d ", (unsigned long long)t->imm, t->w); out += b; return; }
	int me = next++;
	if (leafset.count(t)) { num[t] = me; out += "L" + std::to_string(t->w) + " "; return; }
	out += "(" + std::to_string((int)t->op) + ":" + std::to_string(t->w) + ":" + (t->op == Op::EXTRACT ? std::to_string(t->imm) : "") + " ";
	for (int i = 0; i < t->nargs; i++) shape(t->a[i], d - 1, num, leafset, out, next);
	out += ")";
	num[t] = me;
}
// leaves of the cone of {x,y} cut at depth d (BFS by min depth)
static void cut(Term * x, Term * y, int d, std::unordered_map<Term *, bool> & leaves) {
	std::unordered_map<Term *, int> best;
	std::deque<std::pair<Term *, int>> q{{x, d}, {y, d}};
	best[x] = d; best[y] = d;
	while (!q.empty()) {
		auto [t, k] = q.front(); q.pop_front();
		if (best[t] > k) continue;
		if (t->op == Op::CONST) continue;
		if (t->op == Op::VAR || k == 0) continue;
		for (int i = 0; i < t->nargs; i++) {
			// structure operators do not count as depth
			int kk = (t->op == Op::EXTRACT || t->op == Op::CONCAT) ? k : k - 1;
			auto it = best.find(t->a[i]);
			if (it == best.end() || it->second < kk) { best[t->a[i]] = kk; q.push_back({t->a[i], kk}); }
		}
	}
	for (auto & [t, k] : best) if (t->op == Op::VAR || (k == 0 && t->op != Op::CONST)) leaves[t] = true;
}
static bool lemma(Term * x, Term * y, int d) {
	std::unordered_map<Term *, bool> lv;
	cut(x, y, d, lv);
	std::unordered_map<Term *, int> num;
	std::string key; int next = 0;
	shape(x, d, num, lv, key, next);
	key += "= ";
	shape(y, d, num, lv, key, next);
	S.lemma_uses++;
	auto it = lemmaCache.find(key);
	if (it != lemmaCache.end()) { S.lemma_cached++; return it->second; }
	std::unordered_map<Term *, z3::expr> leaves;
	for (auto & [t, b] : lv) leaves.emplace(t, zc->bv_const(("l" + std::to_string(t->id)).c_str(), t->w));
	double a = now();
	z3::solver s = z3::tactic(*zc, "qfbv").mk_solver();
	z3::params p(*zc);
	p.set("timeout", opt.ltimeout);
	s.set(p);
	Z3T tr; tr.leaves = &leaves;
	s.add(tr.tr(x) != tr.tr(y));
	if (!opt.smtdump.empty()) { std::ofstream o(opt.smtdump + "/l" + std::to_string(opt.shard) + "_" + std::to_string(smtn++) + ".smt2"); o << s.to_smt2(); }
	S.q_lemma++;
	bool ok = s.check() == z3::unsat;
	S.z3time += now() - a;
	lemmaCache[key] = ok;
	if (opt.verbose) fprintf(stderr, "LEMMA %d %s\n   %s\n   %s\n", ok, key.c_str(), db->str(x, d).c_str(), db->str(y, d).c_str());
	return ok;
}
struct Sweep {
	std::unordered_map<u64, std::vector<Term *>> table;
	u64 sig(Term * t) {
		u64 h = t->w * 0x9E3779B97F4A7C15ull;
		for (int i = 0; i < NS; i++) { h ^= t->sim[i]; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; }
		return h;
	}
	Term * find(Term * t) { while (t->rep && t->rep != t) t = t->rep; return t; }
	// x ^ y expanded from the youngest term down, equal contributions cancelling; true: nothing is left
	bool xorEqual(Term * x, Term * y) {
		auto lin = [](Op o) { return o == Op::XOR || o == Op::CONCAT || o == Op::EXTRACT; };
		if (!lin(x->op) || !lin(y->op)) return false;
		// result bit i is the sum of bits i-delta of the terms whose mask has bit i
		struct Key { uint32_t id; int delta; bool operator<(const Key & o) const { return id != o.id ? id > o.id : delta < o.delta; } };
		std::map<Key, std::pair<Term *, u64>> m; // youngest first
		u64 k = 0;
		auto sh = [](u64 v, int d) { return d >= 64 || d <= -64 ? 0 : d >= 0 ? v << d : v >> -d; };
		auto flip = [&](auto & self, Term * t, int delta, u64 mask) -> void {
			if (!mask) return;
			if (t->op == Op::CONST) { k ^= sh(t->imm, delta) & mask; return; }
			if (t->op == Op::EXTRACT) return self(self, t->a[0], delta - (int)t->imm, mask);
			if (t->op == Op::CONCAT) {
				u64 low = sh(maskw(t->a[1]->w), delta) & mask;
				self(self, t->a[1], delta, low);
				return self(self, t->a[0], delta + (int)t->a[1]->w, mask & ~low);
			}
			if (t->rep && t->rep != t) { Term * f = find(t); if (f != t) return self(self, f, delta, mask); }
			auto [it, fresh] = m.try_emplace(Key{t->id, delta}, t, mask);
			if (!fresh && !(it->second.second ^= mask)) m.erase(it);
		};
		flip(flip, x, 0, maskw(x->w)); flip(flip, y, 0, maskw(y->w));
		for (int budget = 600; budget && !m.empty(); budget--) {
			auto [q, v] = *m.begin();
			if (v.first->op != Op::XOR) return false; // opaque and younger than every xor left: it cannot cancel any more
			m.erase(m.begin());
			flip(flip, v.first->a[0], q.delta, v.second); flip(flip, v.first->a[1], q.delta, v.second);
		}
		return m.empty() && k == 0;
	}
	Term * renorm(Term * c) {
		Term * a[3] = {nullptr, nullptr, nullptr}; bool same = true;
		for (int i = 0; i < c->nargs; i++) { a[i] = find(c->a[i]); if (a[i] != c->a[i]) same = false; }
		return same ? c : db->mk(c->op, c->w, c->imm, a[0], a[1], a[2]);
	}
	Term * classify(Term * n) {
		// n has representative arguments
		if (n->op == Op::CONST || n->op == Op::VAR) return n;
		if (n->rep) return find(n);
		if (n->w < 6) { n->rep = n; return n; }
		auto & v = table[sig(n)];
		int tries = 0;
		for (Term * c : v) {
			if (c == n) { n->rep = n; return n; }
			if (c->w != n->w) continue;
			if (++tries > 3) break;
			Term * e = renorm(c); // arguments of c may have been merged since c was met
			bool xe = e == n;
			if (!xe && xorEqual(n, e)) { xe = true; S.xor_equal++; }
			for (int d : {1, 2, 3, 4, 6, 9, 14}) if (xe || lemma(n, e, d)) {
				Term *a = find(c);
				if (a->id < n->id) { n->rep = a; return a; }
				// keep the older one as representative
				n->rep = n; a->rep = n; v.push_back(n);
				return n;
			}
		}
		v.push_back(n);
		n->rep = n;
		return n;
	}
	Term * canon(Term * root) {
		std::vector<Term *> st{root};
		std::unordered_map<Term *, Term *> done;
		while (!st.empty()) {
			Term * u = st.back();
			if (done.count(u)) { st.pop_back(); continue; }
			if (u->op == Op::CONST || u->op == Op::VAR) { done[u] = u; st.pop_back(); continue; }
			bool ready = true;
			for (int i = 0; i < u->nargs; i++) if (!done.count(u->a[i])) { st.push_back(u->a[i]); ready = false; }
			if (!ready) continue;
			st.pop_back();
			if (u->rep) { Term * f = find(u); if (f->op != Op::CONST && f->op != Op::VAR && f->w >= 6) { auto & v = table[sig(f)]; if (std::find(v.begin(), v.end(), f) == v.end()) v.push_back(f); } done[u] = f; continue; }
			Term * a[3] = {nullptr, nullptr, nullptr}; bool same = true;
			for (int i = 0; i < u->nargs; i++) { a[i] = done[u->a[i]]; if (a[i] != u->a[i]) same = false; }
			Term * n = same ? u : db->mk(u->op, u->w, u->imm, a[0], a[1], a[2]);
			Term * r;
			if (n != u) {
				r = n->rep ? find(n) : classify(n);
				if (r->id < u->id) u->rep = r; else if (r != u) { r = u->rep ? u->rep : r; }
			} else r = classify(u);
			done[u] = r;
		}
		return done[root];
	}
};

// ------------------------------------------------------------------ terms helper
static Term * C(u64 v, unsigned w) { return db->cst(v, w); }
static Term * freshUndef(unsigned w) { static u64 n = 0; return db->var("undef" + std::to_string(n++), w, true); }
static bool isC(Term * t) { return t->op == Op::CONST; }

// ------------------------------------------------------------------ types / memory
static const u64 BASEOFF = 0x1000;
static u64 mkaddr(u64 uid) { return (uid << 32) + BASEOFF; }

static uint32_t newObj(State & s, u64 size, const std::string & name) {
	if (size > (1ull << 24)) throw Inconclusive{"allocation larger than 16 MiB: " + name};
	auto o = std::make_shared<Obj>();
	o->size = size; o->name = name;
	o->b.assign(size, Byte{nullptr, 0});
	s.mem.push_back(o);
	return (uint32_t)(s.mem.size() - 1);
}
static Obj * wr(State & s, uint32_t uid) {
	if (s.mem[uid].use_count() > 1) s.mem[uid] = std::make_shared<Obj>(*s.mem[uid]);
	return s.mem[uid].get();
}
static std::string where(State & s) {
	std::string r;
	int n = 0;
	for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; i--, n++) { r += (n ? " <- " : ""); std::string d = llvm::demangle(s.st[i].fn->name); if (d.size() > 160) d = d.substr(0, 157) + "..."; r += d; }
	return r;
}
static Term * byteTerm(State &, Obj & o, u64 i) {
	Byte & b = o.b[i];
	if (!b.t) { b.t = freshUndef(8); b.idx = 0; }
	if (b.t->w == 8) return b.t;
	return db->extract(b.t, b.idx * 8, 8);
}
static Term * loadConcrete(State & s, uint32_t uid, u64 off, unsigned bits) {
	unsigned n = (bits + 7) / 8;
	Obj * o = s.mem[uid].get();
	// whole value
	Byte & f = o->b[off];
	if (f.t && f.idx == 0 && f.t->w == bits && bits == n * 8) {
		bool ok = true;
		for (unsigned i = 1; i < n; i++) if (o->b[off + i].t != f.t || o->b[off + i].idx != i) { ok = false; break; }
		if (ok) return f.t;
	}
	for (unsigned i = 0; i < n; i++) if (!o->b[off + i].t) { o = wr(s, uid); break; }
	Term * r = nullptr;
	for (unsigned i = 0; i < n; i++) { Term * b = byteTerm(s, *o, off + i); r = r ? db->concat(b, r) : b; }
	if (bits < n * 8) r = db->extract(r, 0, bits);
	return r;
}
static void storeConcrete(State & s, uint32_t uid, u64 off, Term * v) {
	unsigned n = (v->w + 7) / 8;
	Obj * o = wr(s, uid);
	if (v->w < n * 8) v = db->zext(v, n * 8);
	if (isC(v)) for (unsigned i = 0; i < n; i++) o->b[off + i] = Byte{C((v->imm >> (8 * i)) & 0xff, 8), 0};
	else for (unsigned i = 0; i < n; i++) o->b[off + i] = Byte{v, i};
}
[[noreturn]] static void violate(const std::string & l, const std::string & d) { throw Violation{l, d}; }

struct Loc { uint32_t uid; u64 off; };
static bool checkObj(State & s, u64 a, u64 n, bool write, Loc & l, std::string & err) {
	u64 uid = a >> 32;
	u64 off = (a & 0xffffffffull) - BASEOFF;
	if (uid == 0 || uid >= s.mem.size() || !s.mem[uid]) { err = "access through an invalid pointer (null or wild)"; return false; }
	Obj & o = *s.mem[uid];
	if (!o.alive) { err = "access to dead object '" + o.name + "'"; return false; }
	if (off > o.size || n > o.size - off) { err = std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " outside object '" + o.name + "' of " + std::to_string(o.size) + " bytes"; return false; }
	if (write && o.ro) { err = "write to constant object '" + o.name + "'"; return false; }
	l.uid = (uint32_t)uid; l.off = off;
	return true;
}
static Loc access(State & s, u64 a, u64 n, bool write) {
	Loc l; std::string e;
	S.bounds_checks++;
	if (!checkObj(s, a, n, write, l, e)) violate("memory-safety", e);
	return l;
}
static void requireTrue(State & s, Term * cond, const std::string & label, const std::string & detail);

// symbolic address: returns object uid and offset term, having proven the access in bounds
static void symAccess(State & s, Term * a, u64 n, bool write, uint32_t & uid, Term *& off) {
	u64 v = 0; bool got = false;
	// an additive constant naming an object decides; otherwise a live sample or a model
	for (int i = 0; i < NS && !got; i++) if ((s.live >> i) & 1) { v = a->sim[i]; got = true; }
	if (!got) { Model m; if (!path_model(s, nullptr, m)) throw PathEnd{}; std::unordered_map<Term *, u64> memo; v = db->eval(a, m, memo); }
	if (a->op == Op::ADD && isC(a->a[1]) && (a->a[1]->imm >> 32) && (a->a[1]->imm >> 32) < s.mem.size()) v = a->a[1]->imm;
	else if (a->op == Op::CONCAT && isC(a->a[0]) && a->a[1]->w <= 32) v = a->a[0]->imm << a->a[1]->w;
	u64 id = v >> 32;
	if (!id || id >= s.mem.size() || !s.mem[id]) violate("memory-safety", "symbolic access through an invalid pointer");
	Obj & o = *s.mem[id];
	if (!o.alive) violate("memory-safety", "symbolic access to dead object '" + o.name + "'");
	if (write && o.ro) violate("memory-safety", "symbolic write to constant object '" + o.name + "'");
	off = db->mk(Op::SUB, 64, 0, a, C(mkaddr(id), 64));
	uid = (uint32_t)id;
	if (n > o.size) violate("memory-safety", "access larger than object '" + o.name + "'");
	S.bounds_checks++;
	if (db->umax(off) + n > o.size || db->umax(off) + n < n) {
		Term * in = db->mk(Op::ULT, 1, 0, off, C(o.size - n + 1, 64));
		requireTrue(s, in, "memory-safety", std::string(write ? "symbolic write" : "symbolic read") + " of " + std::to_string(n) + " bytes outside object '" + o.name + "' of " + std::to_string(o.size) + " bytes");
	}
}
static Term * load(State & s, Term * a, unsigned bits) {
	unsigned n = (bits + 7) / 8;
	if (isC(a)) { Loc l = access(s, a->imm, n, false); return loadConcrete(s, l.uid, l.off, bits); }
	if (a->op == Op::ITE) {
		// only follow arms that are feasible
		if (!feasible(s, a->a[0], nullptr, S.q_bounds)) return load(s, a->a[2], bits);
		if (!feasible(s, db->lnot(a->a[0]), nullptr, S.q_bounds)) return load(s, a->a[1], bits);
		Term * x = load(s, a->a[1], bits); Term * y = load(s, a->a[2], bits);
		return db->ite(a->a[0], x, y);
	}
	uint32_t uid; Term * off;
	symAccess(s, a, n, false, uid, off);
	u64 size = s.mem[uid]->size;
	if (size > 8192) throw Inconclusive{"symbolic read of an object larger than 8 KiB"};
	unsigned tz = db->tzb(off); if (tz > 6) tz = 6;
	u64 step = 1ull << tz;
	u64 last = size - n; u64 mx = db->umax(off); if (mx < last) last = mx;
	// binary mux tree over off bits
	u64 count = last / step + 1;
	unsigned hb = 0; while ((1ull << hb) < count) hb++;
	std::function<Term *(unsigned, u64)> mux = [&](unsigned bit, u64 base) -> Term * {
		if (base >= count) return nullptr;
		if (bit == 0) return loadConcrete(s, uid, base * step, bits);
		Term * lo = mux(bit - 1, base);
		Term * hi = mux(bit - 1, base + (1ull << (bit - 1)));
		if (!hi) return lo;
		return db->ite(db->extract(off, tz + bit - 1, 1), hi, lo);
	};
	return mux(hb, 0);
}
static void store(State & s, Term * a, Term * v, Term * guard = nullptr) {
	unsigned n = (v->w + 7) / 8;
	if (isC(a)) {
		Loc l = access(s, a->imm, n, true);
		if (guard) { Term * old = loadConcrete(s, l.uid, l.off, v->w); v = db->ite(guard, v, old); }
		storeConcrete(s, l.uid, l.off, v);
		return;
	}
	if (a->op == Op::ITE) {
		if (!feasible(s, a->a[0], nullptr, S.q_bounds)) return store(s, a->a[2], v, guard);
		if (!feasible(s, db->lnot(a->a[0]), nullptr, S.q_bounds)) return store(s, a->a[1], v, guard);
		Term * g1 = guard ? db->land(guard, a->a[0]) : a->a[0];
		Term * nn = db->lnot(a->a[0]);
		Term * g2 = guard ? db->land(guard, nn) : nn;
		store(s, a->a[1], v, g1); store(s, a->a[2], v, g2);
		return;
	}
	uint32_t uid; Term * off;
	symAccess(s, a, n, true, uid, off);
	u64 size = s.mem[uid]->size;
	if (size > 1024) throw Inconclusive{"symbolic write into an object larger than 1 KiB"};
	if (v->w < n * 8) v = db->zext(v, n * 8);
	u64 last = size - n; u64 mx = db->umax(off); if (mx < last) last = mx;
	for (u64 p = 0; p <= last; p++) {
		Term * c = db->eq(off, C(p, 64));
		if (isC(c) && !c->imm) continue;
		if (guard) c = db->land(c, guard);
		Term * old = loadConcrete(s, uid, p, n * 8);
		storeConcrete(s, uid, p, db->ite(c, v, old));
	}
}

// ------------------------------------------------------------------ reporting
static std::string jstr(const std::string & x) {
	std::string r = "\"";
	for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
	return r + "\"";
}
static void writeAssignment(std::ofstream & o, State & s, const Model & m) {
	std::unordered_map<Term *, u64> memo;
	for (auto & c : s.choices) o << c.name << "=" << c.v << "\n";
	for (auto & [n, t] : s.symvars) o << n << "=" << db->eval(t, m, memo) << "\n";
}
static void report(State & s, const std::string & label, const std::string & detail, const Model & m) {
	std::string f = opt.outdir + "/ce_" + std::to_string(opt.shard) + "_" + std::to_string(viols.size()) + ".txt";
	std::ofstream o(f);
	o << "#entry " << opt.entry << "\n#label " << label << "\n#detail " << detail << "\n#where " << where(s) << "\n";
	writeAssignment(o, s, m);
	viols.push_back(f);
	violLabels.push_back(label + ": " + detail + " at " + where(s));
	fprintf(stderr, "[shard %d] COUNTEREXAMPLE %s: %s\n  at %s\n", opt.shard, label.c_str(), detail.c_str(), where(s).c_str());
}
// cond must be true on every completion of the path; otherwise reports and continues with cond assumed
static void requireTrue(State & s, Term * cond, const std::string & label, const std::string & detail) {
	if (isC(cond)) { if (cond->imm) return; violate(label, detail); }
	Model m;
	bool live = false;
	for (int i = 0; i < NS; i++) if (((s.live >> i) & 1) && cond->sim[i] == 0) {
		for (auto & v : s.symvars) if (v.second->op == Op::VAR) m[v.second->imm] = v.second->sim[i];
		live = true; break;
	}
	int r = 1;
	if (!live) {
		S.q_bounds++;
		auto fs = relevant(s, cond);
		fs.push_back(db->lnot(cond));
		r = solve(fs, nullptr, opt.qtimeout);
		if (r < 0) throw Inconclusive{"solver timeout deciding " + label};
		if (r == 1) { fs = s.pc; fs.push_back(db->lnot(cond)); if (solve(fs, &m, opt.qtimeout) != 1) throw Inconclusive{"no full model for " + label}; }
	}
	if (r == 1) {
		report(s, label, detail, m);
		if ((int)viols.size() >= opt.maxviol) throw PathEnd{};
		add_pc(s, cond);
		if (!feasible(s, C(1, 1), nullptr, S.q_other)) throw PathEnd{};
	}
}

// ------------------------------------------------------------------ module decode
static Term * constTerm(const Constant * c);
static Val constVal(const Constant * c);
static Term * icmp(CmpInst::Predicate p, Term * x, Term * y);

static u64 evalConstPtr(const Constant * c) {
	Term * t = constTerm(c);
	if (!isC(t)) { fprintf(stderr, "constant pointer not constant\n"); _exit(3); }
	return t->imm;
}
static unsigned bitsOf(Type * t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	return 0;
}
static Term * constTerm(const Constant * c) {
	Val v = constVal(c);
	if (!v.t) { std::string s; raw_string_ostream o(s); c->print(o); fprintf(stderr, "unsupported scalar constant %s\n", s.c_str()); _exit(3); }
	return v.t;
}
static Val wideConst(const APInt & a) {
	Val v; v.agg = std::make_shared<std::vector<Val>>();
	for (unsigned i = 0; i < a.getBitWidth(); i += 64) { unsigned w = std::min(64u, a.getBitWidth() - i); v.agg->push_back(C(a.extractBitsAsZExtValue(w, i), w)); }
	return v;
}
static Val constVal(const Constant * c) {
	if (auto * i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() <= 64) return C(i->getZExtValue(), i->getBitWidth()); return wideConst(i->getValue()); }
	if (isa<ConstantPointerNull>(c)) return C(0, 64);
	if (auto * f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return C(a.getZExtValue(), a.getBitWidth()); return Val{}; }
	if (isa<UndefValue>(c)) { // undef and poison
		Type * t = c->getType();
		if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < t->getIntegerBitWidth(); i += 64) v.agg->push_back(freshUndef(std::min(64u, t->getIntegerBitWidth() - i))); return v; }
		if (auto * st = dyn_cast<StructType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (auto * e : st->elements()) v.agg->push_back(constVal(UndefValue::get(e))); return v; }
		if (auto * at = dyn_cast<ArrayType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (u64 i = 0; i < at->getNumElements(); i++) v.agg->push_back(constVal(UndefValue::get(at->getElementType()))); return v; }
		if (bitsOf(t)) return freshUndef(bitsOf(t));
		return Val{};
	}
	if (auto * g = dyn_cast<GlobalValue>(c)) {
		if (auto * a = dyn_cast<GlobalAlias>(g)) return constVal(a->getAliasee());
		return C(gaddr[g], 64);
	}
	if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
		Val v; v.agg = std::make_shared<std::vector<Val>>();
		Type * t = c->getType();
		u64 n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : 0;
		for (u64 i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement((unsigned)i)));
		return v;
	}
	if (auto * e = dyn_cast<ConstantExpr>(c)) {
		switch (e->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			auto * gep = cast<GEPOperator>(e);
			if (!gep->accumulateConstantOffset(*DL, off)) break;
			return C(constTerm(cast<Constant>(gep->getPointerOperand()))->imm + off.getZExtValue(), 64);
		}
		case Instruction::PtrToInt: { Term * t = constTerm(e->getOperand(0)); unsigned w = bitsOf(e->getType()); return w < 64 ? db->extract(t, 0, w) : t; }
		case Instruction::IntToPtr: return db->zext(constTerm(e->getOperand(0)), 64);
		case Instruction::BitCast: return constVal(e->getOperand(0));
		case Instruction::Sub: return db->mk(Op::SUB, bitsOf(e->getType()), 0, constTerm(e->getOperand(0)), constTerm(e->getOperand(1)));
		case Instruction::Add: return db->mk(Op::ADD, bitsOf(e->getType()), 0, constTerm(e->getOperand(0)), constTerm(e->getOperand(1)));
		case Instruction::Xor: return db->mk(Op::XOR, bitsOf(e->getType()), 0, constTerm(e->getOperand(0)), constTerm(e->getOperand(1)));
		case Instruction::Mul: return db->mk(Op::MUL, bitsOf(e->getType()), 0, constTerm(e->getOperand(0)), constTerm(e->getOperand(1)));
		case Instruction::Shl: return db->mk(Op::SHL, bitsOf(e->getType()), 0, constTerm(e->getOperand(0)), constTerm(e->getOperand(1)));
		case Instruction::Trunc: return db->extract(constTerm(e->getOperand(0)), 0, bitsOf(e->getType()));
		case Instruction::ICmp: {
			Term *x = constTerm(e->getOperand(0)), *y = constTerm(e->getOperand(1));
			return icmp((CmpInst::Predicate)e->getPredicate(), x, y);
		}
		default: break;
		}
	}
	return Val{};
}
static void initBytes(Obj & o, u64 off, const Constant * c) {
	Type * t = c->getType();
	u64 sz = DL->getTypeAllocSize(t);
	if (isa<UndefValue>(c)) return;
	if (c->isNullValue()) { for (u64 i = 0; i < sz; i++) o.b[off + i] = Byte{C(0, 8), 0}; return; }
	if (auto * st = dyn_cast<StructType>(t)) {
		const StructLayout * L = DL->getStructLayout(st);
		for (u64 i = 0; i < sz; i++) o.b[off + i] = Byte{C(0, 8), 0};
		for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(o, off + L->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if (auto * at = dyn_cast<ArrayType>(t)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); i++) initBytes(o, off + i * es, c->getAggregateElement((unsigned)i));
		return;
	}
	Val v = constVal(c);
	if (v.agg && t->isIntegerTy()) { u64 k = 0; for (auto & e : *v.agg) { for (unsigned i = 0; i < (e.t->w + 7) / 8; i++) o.b[off + k++] = Byte{C((e.t->imm >> (8 * i)) & 0xff, 8), 0}; } return; }
	if (!v.t) { for (u64 i = 0; i < sz; i++) o.b[off + i] = Byte{nullptr, 0}; return; } // unsupported constant: reads yield undef
	unsigned n = (v.t->w + 7) / 8;
	for (unsigned i = 0; i < n; i++) o.b[off + i] = Byte{C((v.t->imm >> (8 * i)) & 0xff, 8), 0};
}
static void decodeFn(Function & F) {
	auto f = std::make_unique<Fn>();
	f->F = &F; f->name = F.getName().str();
	DenseMap<const Value *, int> slot;
	int n = 0;
	for (auto & a : F.args()) slot[&a] = n++;
	unsigned bi = 0;
	for (auto & B : F) { f->bbidx[&B] = bi++; for (auto & I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
	f->nslots = n;
	for (auto & B : F) {
		Block b;
		unsigned k = 0;
		for (auto & I : B) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			Inst in; in.I = &I;
			if (!I.getType()->isVoidTy()) in.dst = slot[&I];
			for (auto & u : I.operands()) {
				Operand o; Value * v = u.get();
				auto it = slot.find(v);
				if (it != slot.end()) o.slot = it->second;
				else if (auto * c = dyn_cast<Constant>(v)) { if (isa<UndefValue>(c)) o.slot = -2; else o.c = constVal(c); }
				in.ops.push_back(o);
			}
			if (isa<PHINode>(I)) k++;
			b.insts.push_back(std::move(in));
		}
		b.firstNonPhi = k;
		f->blocks.push_back(std::move(b));
	}
	fns[&F] = std::move(f);
}
static void loadModule() {
	SMDiagnostic err;
	mod = parseIRFile(opt.bc, err, *ctxp);
	if (!mod) { err.print("symex", errs()); _exit(3); }
	DL = &mod->getDataLayout();
	initmem.resize(1);
	for (auto & g : mod->globals()) {
		gaddr[&g] = mkaddr(initmem.size());
		initmem.push_back(nullptr);
	}
	for (auto & F : *mod) {
		gaddr[&F] = mkaddr(initmem.size());
		fnaddr[gaddr[&F]] = &F;
		initmem.push_back(nullptr);
	}
	for (auto & g : mod->globals()) {
		u64 uid = gaddr[&g] >> 32;
		auto o = std::make_shared<Obj>();
		o->name = g.getName().str();
		Type * t = g.getValueType();
		o->size = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0;
		if (!g.hasInitializer() && o->size < 4096) o->size = 4096;
		o->b.assign(o->size, Byte{nullptr, 0});
		if (g.hasInitializer()) initBytes(*o, 0, g.getInitializer());
		if (o->name == "_ZTVSo" || o->name == "_ZTVSt13basic_ostreamIwSt11char_traitsIwEE") // the virtual base is 8 bytes into the object
			for (u64 i = 0; i < 80; i++) o->b[i] = Byte{db->cst(i == 0 ? 8 : i >= 40 && i < 56 ? (i % 8 ? 0xff : 0xf8) : 0, 8), 0};
		o->ro = g.isConstant();
		initmem[uid] = o;
	}
	for (auto & F : *mod) if (!F.isDeclaration()) decodeFn(F);
}

// ------------------------------------------------------------------ execution
static std::vector<State> work;

static void pushState(State && s) { S.forks++; s.mark = db->mark(); work.push_back(std::move(s)); }

static Val getv(State &, Frame & f, const Operand & o, Type * ty = nullptr) {
	if (o.slot >= 0) return f.regs[o.slot];
	if (o.slot == -2) return constVal(UndefValue::get(ty));
	return o.c;
}
static Val opv(State & s, Frame & f, const Inst & in, unsigned i) { return getv(s, f, in.ops[i], in.I->getOperand(i)->getType()); }
static Term * opt_(State & s, Frame & f, const Inst & in, unsigned i) {
	Val v = opv(s, f, in, i);
	if (!v.t) { std::string x; raw_string_ostream o(x); in.I->print(o); throw Inconclusive{"unsupported operand in: " + x + " in " + llvm::demangle(f.fn->name)}; }
	return v.t;
}
static void setv(Frame & f, const Inst & in, Val v) { if (in.dst >= 0) f.regs[in.dst] = std::move(v); }

// enumerate the values of t: the current state continues with one value, another copy with the rest
static u64 concretise(State & s, Term * t, const char * why) {
	if (isC(t)) return t->imm;
	u64 v; bool got = false;
	for (int i = 0; i < NS && !got; i++) if ((s.live >> i) & 1) { v = t->sim[i]; got = true; }
	if (!got) {
		Model m; auto fs = relevant(s, t); Term * one = C(1, 1); fs.push_back(one);
		S.q_other++;
		int r = solve(s.pc, &m, opt.qtimeout);
		if (r < 0) throw Inconclusive{std::string("solver timeout concretising ") + why};
		if (!r) throw PathEnd{};
		std::unordered_map<Term *, u64> memo; v = db->eval(t, m, memo);
	}
	Term * e = db->eq(t, C(v, t->w));
	Term * ne = db->lnot(e);
	if (feasible(s, ne, nullptr, S.q_branch)) {
		static u64 lim = 0;
		if (++lim > 200000) throw Inconclusive{std::string("too many values concretising ") + why};
		State o = s; add_pc(o, ne); pushState(std::move(o));
	}
	add_pc(s, e);
	return v;
}
static void checkUndef(State & s, Term * c) {
	if (!c->undef) return;
	// does the value really depend on uninitialised data?  two copies of the undefined variables
	std::set<u64> vs; std::unordered_set<Term *> seen; collect_vars(c, vs, seen);
	std::unordered_map<Term *, Term *> sub;
	std::function<Term *(Term *)> ren = [&](Term * t) -> Term * {
		if (!t->undef) return t;
		auto it = sub.find(t); if (it != sub.end()) return it->second;
		Term * r;
		if (t->op == Op::VAR) r = freshUndef(t->w);
		else { Term * a[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < t->nargs; i++) a[i] = ren(t->a[i]); r = db->mk(t->op, t->w, t->imm, a[0], a[1], a[2]); }
		sub[t] = r; return r;
	};
	Term * d = ren(c);
	requireTrue(s, db->eq(c, d), "uninitialised-read", "control flow depends on uninitialised memory");
}
static void jump(State & s, Frame & f, unsigned to) {
	unsigned from = f.bb;
	f.prev = from; f.bb = to;
	Block & b = f.fn->blocks[to];
	if (b.firstNonPhi) {
		std::vector<Val> vals;
		for (unsigned i = 0; i < b.firstNonPhi; i++) {
			auto * phi = cast<PHINode>(b.insts[i].I);
			int k = -1;
			for (unsigned j = 0; j < phi->getNumIncomingValues(); j++) if (f.fn->bbidx[phi->getIncomingBlock(j)] == from) { k = j; break; }
			vals.push_back(getv(s, f, b.insts[i].ops[k], phi->getType()));
		}
		for (unsigned i = 0; i < b.firstNonPhi; i++) f.regs[b.insts[i].dst] = vals[i];
	}
	f.ip = b.firstNonPhi;
}
static void popFrame(State & s) {
	for (uint32_t u : s.st.back().allocas) { Obj * o = wr(s, u); o->alive = false; o->b.clear(); o->b.shrink_to_fit(); }
	s.st.pop_back();
}
static void enter(State & s, Fn * fn, std::vector<Val> args) {
	if (s.st.size() > 400) throw Inconclusive{"call depth over 400"};
	Frame f; f.fn = fn; f.regs.resize(fn->nslots);
	unsigned n = fn->F->arg_size();
	for (unsigned i = 0; i < args.size(); i++) if (i < n) f.regs[i] = args[i]; else f.varargs.push_back(args[i]);
	// byval arguments are copied
	unsigned k = 0;
	for (auto & a : fn->F->args()) {
		if (a.hasByValAttr()) {
			u64 sz = DL->getTypeAllocSize(a.getParamByValType());
			uint32_t u = newObj(s, sz, "byval");
			f.allocas.push_back(u);
			Loc l = access(s, f.regs[k].t->imm, sz, false);
			ObjP src = s.mem[l.uid];
			Obj * d = wr(s, u);
			for (u64 i = 0; i < sz; i++) d->b[i] = src->b[l.off + i];
			f.regs[k] = C(mkaddr(u), 64);
		}
		k++;
	}
	execfns.insert(fn->name);
	s.st.push_back(std::move(f));
}

// ---- exceptions
static std::string tiName(const Value * v) { v = v->stripPointerCasts(); return v->getName().str(); }
static bool tiDerives(const std::string & t, const std::string & base, int depth = 0) {
	if (t == base) return true;
	if (depth > 8) return false;
	static const std::map<std::string, std::string> ext = {
		{"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
		{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12format_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}};
	auto it = ext.find(t);
	if (it != ext.end()) return tiDerives(it->second, base, depth + 1);
	auto * g = mod->getNamedGlobal(t);
	if (g && g->hasInitializer() && g->getInitializer()->getType()->isStructTy() && g->getInitializer()->getNumOperands() >= 3)
		return tiDerives(tiName(g->getInitializer()->getOperand(2)), base, depth + 1);
	return false;
}
static int typeIdFor(const std::string & n) { auto it = typeids.find(n); if (it == typeids.end()) it = typeids.emplace(n, (int)typeids.size() + 1).first; return it->second; }

static bool unwind(State & s) { // s.inflight set; frames: top frame is the one whose call raised
	while (!s.st.empty()) {
		Frame & f = s.st.back();
		Inst & in = f.fn->blocks[f.bb].insts[f.ip];
		if (auto * iv = dyn_cast<InvokeInst>(in.I)) {
			LandingPadInst * lp = iv->getLandingPadInst();
			int sel = -1;
			for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) if (lp->isCatch(i)) {
				Constant * c = lp->getClause(i);
				if (c->isNullValue()) sel = typeIdFor("");
				else if (tiDerives(s.inflight.tiname, tiName(c))) sel = typeIdFor(tiName(c));
			} else throw Inconclusive{"exception filter clause"};
			if (sel < 0 && lp->isCleanup()) sel = 0;
			if (sel >= 0) {
				jump(s, f, f.fn->bbidx[iv->getUnwindDest()]);
				// the landing pad is the first non-phi instruction
				Inst & li = f.fn->blocks[f.bb].insts[f.ip];
				Val v; v.agg = std::make_shared<std::vector<Val>>();
				v.agg->push_back(C(s.inflight.ptr, 64)); v.agg->push_back(C((u64)sel, 32));
				setv(f, li, v);
				f.ip++;
				return true;
			}
		}
		if (f.fn->F->doesNotThrow()) violate("terminate", "exception '" + s.inflight.tiname + "' leaves a noexcept function");
		popFrame(s);
	}
	violate("uncaught-exception", "exception '" + s.inflight.tiname + "' escapes the harness");
}
static void throwExc(State & s, u64 ptr, const std::string & ti) { s.inflight.ptr = ptr; s.inflight.tiname = ti; unwind(s); }

static std::string cstr(State & s, Term * p) {
	if (!isC(p)) throw Inconclusive{"symbolic C string"};
	std::string r;
	for (u64 a = p->imm;; a++) { Loc l = access(s, a, 1, false); Term * b = loadConcrete(s, l.uid, l.off, 8); if (!isC(b)) throw Inconclusive{"symbolic label"}; if (!b->imm) break; r += (char)b->imm; }
	return r;
}
static void copyBytes(State & s, u64 d, u64 sr, u64 n) {
	if (!n) return;
	Loc ls = access(s, sr, n, false), ld = access(s, d, n, true);
	std::vector<Byte> tmp(s.mem[ls.uid]->b.begin() + ls.off, s.mem[ls.uid]->b.begin() + ls.off + n);
	Obj * o = wr(s, ld.uid);
	std::copy(tmp.begin(), tmp.end(), o->b.begin() + ld.off);
}
static u64 concretePtr(State & s, Term * p) { return isC(p) ? p->imm : concretise(s, p, "pointer"); }
static Term * byteAt(State & s, u64 a) { Loc l = access(s, a, 1, false); return loadConcrete(s, l.uid, l.off, 8); }

static std::map<std::string, Term *> concreteVar;
static Term * symvar(State & s, const std::string & n, unsigned w) {
	Term * t;
	if (concreteMode) { auto it = concrete.find(n); t = C(it == concrete.end() ? 0 : it->second, w); }
	else t = db->var(n, w);
	s.symvars.push_back({n, t});
	return t;
}
static void dumpWitness(State & s, const Model & m, const std::string & f) {
	std::ofstream o(f);
	o << "#entry " << opt.entry << "\n";
	writeAssignment(o, s, m);
	std::unordered_map<Term *, u64> memo;
	for (auto & [n, v] : s.outs) { o << "!out " << n << " "; for (Term * t : v) { char b[4]; snprintf(b, sizeof b, "%02x", (unsigned)db->eval(t, m, memo)); o << b; } o << "\n"; }
}
// the words of x and y left after merging what is provably equal
static std::vector<std::pair<Term *, Term *>> unequal(std::vector<Term *> & x, std::vector<Term *> & y) {
	u64 n = x.size();
	// whole-word sweep: group bytes back into the largest words available
	Sweep sw;
	std::vector<std::pair<Term *, Term *>> rest;
	for (u64 i = 0; i < n;) {
		u64 k = 1;
		for (u64 w : {8, 4}) if (i + w <= n) {
			auto big = [&](std::vector<Term *> & v) {
				// all extracts of one word?
				Term * p = nullptr;
				for (u64 j = 0; j < w; j++) { Term * e = v[i + j]; if (e->op != Op::EXTRACT) return false; if (!p) p = e->a[0]; if (e->a[0] != p) return false; }
				return true;
			};
			if (big(x) || big(y)) { k = w; break; }
		}
		bool eq = true;
		for (u64 j = 0; j < k; j++) if (x[i + j] != y[i + j]) eq = false;
		if (!eq) {
			Term *p = nullptr, *q = nullptr;
			// both byte orders normalise: build the word in the order that merges
			Term *p1 = x[i], *q1 = y[i];
			for (u64 j = 1; j < k; j++) { p1 = db->concat(x[i + j], p1); q1 = db->concat(y[i + j], q1); }
			Term *p2 = x[i], *q2 = y[i];
			for (u64 j = 1; j < k; j++) { p2 = db->concat(p2, x[i + j]); q2 = db->concat(q2, y[i + j]); }
			if (p2->op != Op::CONCAT || q2->op != Op::CONCAT) { p = p2; q = q2; } else { p = p1; q = q1; }
			if (p->id > q->id) std::swap(p, q); // the older side gives the representatives
			Term *cp = sw.canon(p), *cq = sw.canon(q);
			if (cp != cq) { cp = sw.canon(cp); cq = sw.canon(cq); }
			if (cp != cq) rest.push_back({cp, cq});
		}
		i += k;
	}
	return rest;
}
// 1: proven equal, 0: not (used to find out whether the code keeps its state in the form a harness can generalise)
static int provablySame(State & s, u64 a, u64 b, u64 n) {
	std::vector<Term *> x, y;
	bool same = true;
	for (u64 i = 0; i < n; i++) { x.push_back(byteAt(s, a + i)); y.push_back(byteAt(s, b + i)); if (x[i] != y[i]) same = false; }
	if (same) return 1;
	for (u64 i = 0; i < n; i++) for (int k = 0; k < NS; k++) if (x[i]->sim[k] != y[i]->sim[k]) return 0;
	return unequal(x, y).empty();
}
static void checkEq(State & s, u64 a, u64 b, u64 n, const std::string & label) {
	S.eq_checks++; S.eq_bytes += n; checkcount[label]++; s.checks++;
	std::vector<Term *> x, y;
	bool same = true;
	for (u64 i = 0; i < n; i++) { x.push_back(byteAt(s, a + i)); y.push_back(byteAt(s, b + i)); if (x[i] != y[i]) same = false; }
	if (same) { S.eq_structural++; return; }
	// concrete difference on a live sample
	for (int k = 0; k < NS; k++) if ((s.live >> k) & 1) for (u64 i = 0; i < n; i++) if (x[i]->sim[k] != y[i]->sim[k]) {
		Model m; for (auto & v : s.symvars) if (v.second->op == Op::VAR) m[v.second->imm] = v.second->sim[k];
		for (size_t q = 0; q < db->vars.size(); q++) (void)q;
		report(s, label, "byte " + std::to_string(i) + " differs: " + std::to_string(x[i]->sim[k]) + " vs " + std::to_string(y[i]->sim[k]), m);
		return;
	}
	bool unlike = false;
	for (int k = 0; k < NS && !unlike; k++) for (u64 i = 0; i < n; i++) if (x[i]->sim[k] != y[i]->sim[k]) { unlike = true; break; }
	if (unlike) for (int tries = 0; tries < 6; tries++) { // different in general; on this path too?
		Model m;
		if (!diverse_model(s, m)) continue;
		std::unordered_map<Term *, u64> memo;
		for (u64 i = 0; i < n; i++) { u64 p = db->eval(x[i], m, memo), q = db->eval(y[i], m, memo); if (p != q) { report(s, label, "byte " + std::to_string(i) + " differs: " + std::to_string(p) + " vs " + std::to_string(q), m); return; } }
	}
	auto rest = unequal(x, y);
	if (rest.empty()) { S.eq_sweep++; return; }
	Term * diff = C(0, 1);
	for (auto & [p, q] : rest) diff = db->lor(diff, db->lnot(db->eq(p, q)));
	auto fs = s.pc; fs.push_back(diff);
	S.q_full++; S.eq_full++;
	Model m;
	int r = solve(fs, &m, opt.qtimeout);
	if (r == 0) return;
	if (r < 0) throw Inconclusive{"solver timeout on equality '" + label + "'"};
	std::unordered_map<Term *, u64> memo;
	std::string det = "values differ";
	for (u64 i = 0; i < n; i++) { u64 p = db->eval(x[i], m, memo), q = db->eval(y[i], m, memo); if (p != q) { det = "byte " + std::to_string(i) + " differs: " + std::to_string(p) + " vs " + std::to_string(q); break; } }
	report(s, label, det, m);
}
static bool handleSym(State & s, const std::string & n, std::vector<Val> & a, Val & ret) {
	if (n == "sym_range") {
		std::string nm = cstr(s, a[0].t); u64 lo = a[1].t->imm, hi = a[2].t->imm;
		if (!isC(a[1].t) || !isC(a[2].t)) throw Inconclusive{"symbolic sym_range bounds"};
		if (lo > hi) throw PathEnd{};
		auto it = ranges.find(nm); if (it == ranges.end()) ranges[nm] = {lo, hi}; else { it->second.first = std::min(it->second.first, lo); it->second.second = std::max(it->second.second, hi); }
		// the instruction is re-executed per value: the call's frame state is finished by the caller
		if (concreteMode) { auto c = concrete.find(nm); u64 v = c == concrete.end() ? lo : c->second; if (v < lo || v > hi) throw PathEnd{}; s.choices.push_back({nm, v}); ret = C(v, 64); return true; }
		Frame & f = s.st.back();
		Inst & in = f.fn->blocks[f.bb].insts[f.ip];
		for (u64 v = hi; v > lo; v--) {
			State o = s;
			o.choices.push_back({nm, v});
			Frame & g = o.st.back();
			setv(g, in, C(v, 64));
			if (auto * iv = dyn_cast<InvokeInst>(in.I)) jump(o, g, g.fn->bbidx[iv->getNormalDest()]); else g.ip++;
			pushState(std::move(o));
		}
		s.choices.push_back({nm, lo});
		ret = C(lo, 64);
		return true;
	}
	if (n == "sym_bytes") {
		u64 p = concretePtr(s, a[0].t); u64 k = concretise(s, a[1].t, "sym_bytes size"); std::string nm = cstr(s, a[2].t);
		if (k) access(s, p, k, true);
		for (u64 i = 0; i < k; i++) { Term * v = symvar(s, nm + "[" + std::to_string(i) + "]", 8); Loc l = access(s, p + i, 1, true); storeConcrete(s, l.uid, l.off, v); }
		return true;
	}
	if (n == "sym_u64" || n == "sym_u32" || n == "sym_u8") { ret = symvar(s, cstr(s, a[0].t), n == "sym_u64" ? 64 : n == "sym_u32" ? 32 : 8); return true; }
	if (n == "sym_assume") {
		Term * c = a[0].t; if (c->w != 1) c = db->extract(c, 0, 1);
		if (isC(c)) { if (!c->imm) throw PathEnd{}; return true; }
		if (!feasible(s, c, nullptr, S.q_branch)) throw PathEnd{};
		add_pc(s, c);
		return true;
	}
	if (n == "sym_check") {
		Term * c = a[0].t; if (c->w != 1) c = db->extract(c, 0, 1);
		std::string lab = cstr(s, a[1].t);
		S.bool_checks++; checkcount[lab]++; s.checks++;
		if (isC(c) && c->imm) { S.bool_const++; return true; }
		S.bool_solver++;
		if (isC(c)) { Model m; if (!path_model(s, nullptr, m)) throw PathEnd{}; report(s, lab, "assertion is false", m); throw PathEnd{}; }
		requireTrue(s, c, lab, "assertion can be false");
		return true;
	}
	if (n == "sym_check_eq") { checkEq(s, concretePtr(s, a[0].t), concretePtr(s, a[1].t), concretise(s, a[2].t, "check size"), cstr(s, a[3].t)); return true; }
	if (n == "sym_same") {
		std::string nm = cstr(s, a[3].t);
		int r = provablySame(s, concretePtr(s, a[0].t), concretePtr(s, a[1].t), concretise(s, a[2].t, "size"));
		if (concreteMode) { auto c = concrete.find(nm); if (c != concrete.end()) r = (int)c->second; }
		if (r) { S.eq_checks++; S.eq_sweep++; checkcount["provably " + nm]++; s.checks++; }
		s.choices.push_back({nm, (u64)r});
		ret = C((u64)r, 32); return true;
	}
	if (n == "sym_out") {
		u64 p = concretePtr(s, a[0].t), k = concretise(s, a[1].t, "out size"); std::vector<Term *> v;
		for (u64 i = 0; i < k; i++) v.push_back(byteAt(s, p + i));
		s.outs.push_back({cstr(s, a[2].t), v});
		return true;
	}
	if (n == "sym_reach") { reach[cstr(s, a[0].t)]++; return true; }
	if (n == "sym_shard") {
		u64 h = 1469598103934665603ull;
		for (auto & c : s.choices) { h ^= c.v + 0x9E3779B97F4A7C15ull; h *= 1099511628211ull; h ^= h >> 31; }
		if (!concreteMode && (int)(h % (u64)opt.nshards) != opt.shard) { S.skipped_shard++; throw PathEnd{}; }
		return true;
	}
	if (n == "sym_is_concrete") { ret = C(concreteMode, 32); return true; }
	if (n == "sym_freeable") return true;
	return false;
}

static Term * cmp3(State & s, u64 p, u64 q, u64 n, unsigned w) { // memcmp as a term: sign of first difference
	Term * r = C(0, w);
	for (u64 i = n; i-- > 0;) {
		Term *x = byteAt(s, p + i), *y = byteAt(s, q + i);
		Term * d = db->mk(Op::SUB, w, 0, db->zext(x, w), db->zext(y, w));
		r = db->ite(db->eq(x, y), r, d);
	}
	return r;
}

// returns true if handled; may throw
static bool external(State & s, const Function * F, std::vector<Val> & a, Val & ret, bool & control) {
	std::string n = F->getName().str();
	if (n.rfind("sym_", 0) == 0) { if (handleSym(s, n, a, ret)) return true; }
	if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t") {
		u64 k = concretise(s, a[0].t, "allocation size");
		uint32_t u = newObj(s, k, "heap"); s.mem[u]->heap = true;
		ret = C(mkaddr(u), 64); return true;
	}
	if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvmSt11align_val_t") {
		u64 p = concretePtr(s, a[0].t);
		if (!p) return true;
		u64 uid = p >> 32;
		if (uid >= s.mem.size() || !s.mem[uid] || !s.mem[uid]->heap || !s.mem[uid]->alive || p != mkaddr(uid)) violate("memory-safety", "invalid or double free");
		wr(s, (uint32_t)uid)->alive = false;
		return true;
	}
	if (n == "__cxa_allocate_exception") { uint32_t u = newObj(s, concretise(s, a[0].t, "exc") + 64, "exception"); ret = C(mkaddr(u), 64); return true; }
	if (n == "__cxa_free_exception") return true;
	if (n == "__cxa_throw") {
		std::string ti;
		u64 tp = concretePtr(s, a[1].t);
		for (auto & g : mod->globals()) if (gaddr[&g] == tp) ti = g.getName().str();
		control = true;
		throwExc(s, concretePtr(s, a[0].t), ti);
		return true;
	}
	if (n == "__cxa_begin_catch") { ret = a[0]; s.caught.push_back(s.inflight); return true; }
	if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
	if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; }
	if (n == "__cxa_rethrow") { if (s.caught.empty()) violate("terminate", "rethrow without exception"); s.inflight = s.caught.back(); s.caught.pop_back(); control = true; unwind(s); return true; }
	if (n == "__cxa_guard_acquire") { Term * g = load(s, a[0].t, 8); ret = C(isC(g) && g->imm ? 0 : 1, 32); return true; }
	if (n == "__cxa_guard_release") { store(s, a[0].t, C(1, 8)); return true; }
	if (n == "__cxa_guard_abort") return true;
	if (n == "__cxa_atexit" || n == "atexit") { ret = C(0, 32); return true; }
	if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
		std::string m; try { m = cstr(s, n[2] == 'a' ? a[0].t : a[3].t); } catch (...) { m = "?"; }
		violate("assertion-failure", m);
	}
	if (n == "printf" || n == "puts" || n == "putchar") { ret = C(0, 32); return true; }
	if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual") violate("terminate", n);
	if (n == "strlen") {
		u64 p = concretePtr(s, a[0].t); Term * r = nullptr;
		std::vector<Term *> bs; bool done = false;
		for (u64 i = 0; i < 100000 && !done; i++) { Term * b = byteAt(s, p + i); bs.push_back(b); if (isC(b) && !b->imm) done = true; }
		r = C(bs.size() - 1, 64);
		for (u64 i = bs.size() - 1; i-- > 0;) r = db->ite(db->eq(bs[i], C(0, 8)), C(i, 64), r);
		ret = r; return true;
	}
	if (n == "memcmp" || n == "bcmp") { u64 k = concretise(s, a[2].t, "memcmp size"); if (!k) { ret = C(0, 32); return true; } ret = cmp3(s, concretePtr(s, a[0].t), concretePtr(s, a[1].t), k, 32); return true; }
	if (n == "wmemcmp") {
		u64 k = concretise(s, a[2].t, "wmemcmp size"); Term * r = C(0, 32);
		for (u64 i = k; i-- > 0;) { Term * x = load(s, C(concretePtr(s, a[0].t) + 4 * i, 64), 32), * y = load(s, C(concretePtr(s, a[1].t) + 4 * i, 64), 32); r = db->ite(db->eq(x, y), r, db->ite(db->mk(Op::SLT, 1, 0, x, y), C(0xffffffffu, 32), C(1, 32))); }
		ret = r; return true;
	}
	if (n == "wmemcpy" || n == "wmemmove") { u64 k = 4 * concretise(s, a[2].t, "wmemcpy size"); copyBytes(s, concretePtr(s, a[0].t), concretePtr(s, a[1].t), k); ret = a[0]; return true; }
	if (n == "wmemset") { u64 k = concretise(s, a[2].t, "wmemset size"); for (u64 i = 0; i < k; i++) store(s, C(concretePtr(s, a[0].t) + 4 * i, 64), db->extract(a[1].t, 0, 32)); ret = a[0]; return true; }
	if (n == "wmemchr") {
		u64 k = concretise(s, a[2].t, "wmemchr size"), p = concretePtr(s, a[0].t); Term * r = C(0, 64);
		for (u64 i = k; i-- > 0;) r = db->ite(db->eq(load(s, C(p + 4 * i, 64), 32), a[1].t), C(p + 4 * i, 64), r);
		ret = r; return true;
	}
	if (n == "wcslen") { u64 i = 0; for (;; i++) { Term * x = load(s, C(concretePtr(s, a[0].t) + 4 * i, 64), 32); if (!isC(x)) throw Inconclusive{"wcslen of symbolic text"}; if (!x->imm) break; } ret = C(i, 64); return true; }
	if (n == "memchr") {
		u64 k = concretise(s, a[2].t, "memchr size"), p = concretePtr(s, a[0].t);
		Term * c = db->extract(a[1].t, 0, 8); Term * r = C(0, 64);
		for (u64 i = k; i-- > 0;) r = db->ite(db->eq(byteAt(s, p + i), c), C(p + i, 64), r);
		ret = r; return true;
	}
	if (n == "memcpy" || n == "memmove") { u64 k = concretise(s, a[2].t, "memcpy size"); copyBytes(s, concretePtr(s, a[0].t), concretePtr(s, a[1].t), k); ret = a[0]; return true; }
	if (n == "memset") { u64 k = concretise(s, a[2].t, "memset size"), p = concretePtr(s, a[0].t); if (k) { Loc l = access(s, p, k, true); Term * b = db->extract(a[1].t, 0, 8); Obj * o = wr(s, l.uid); for (u64 i = 0; i < k; i++) o->b[l.off + i] = Byte{b, 0}; } ret = a[0]; return true; }
	// throwing helpers of libstdc++
	static const std::map<std::string, std::string> thr = {
		{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
		{"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt9bad_alloc"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}};
	auto it = thr.find(n);
	if (it != thr.end()) { uint32_t u = newObj(s, 64, "exception"); control = true; throwExc(s, mkaddr(u), it->second); return true; }
	// constructors / destructors of libstdc++ exception classes: contents not modelled
	if (n.rfind("_ZNSt", 0) == 0) {
		std::string d = llvm::demangle(n);
		for (const char * c : {"std::invalid_argument::", "std::runtime_error::", "std::logic_error::", "std::out_of_range::", "std::exception::", "std::length_error::", "std::format_error::", "std::locale::locale", "std::locale::~locale", "std::ios_base::~ios_base", "std::bad_alloc::"}) if (d.rfind(c, 0) == 0) return true;
		if (n == "_ZNSt8ios_baseC2Ev" || n == "_ZNSt8ios_baseC1Ev") { // all fields zero (width, flags, state), as the real constructor leaves them for our purposes
			u64 p = concretePtr(s, a[0].t); Loc l = access(s, p, 216, true); Obj * o = wr(s, l.uid); for (u64 i = 0; i < 216; i++) o->b[l.off + i] = Byte{C(0, 8), 0}; return true; }
		if (n == "_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E" || n == "_ZNSt9basic_iosIwSt11char_traitsIwEE4initEPSt15basic_streambufIwS1_E") { // no tie, no facets, the given buffer
			u64 p = concretePtr(s, a[0].t); Loc l = access(s, p + 216, 48, true); Obj * o = wr(s, l.uid); for (u64 i = 0; i < 48; i++) o->b[l.off + i] = Byte{C(0, 8), 0};
			storeConcrete(s, l.uid, l.off + 16, a[1].t); return true; }
	}
	return false;
}

static Term * icmp(CmpInst::Predicate p, Term * x, Term * y) {
	switch (p) {
	case CmpInst::ICMP_EQ: return db->eq(x, y);
	case CmpInst::ICMP_NE: return db->lnot(db->eq(x, y));
	case CmpInst::ICMP_ULT: return db->mk(Op::ULT, 1, 0, x, y);
	case CmpInst::ICMP_UGT: return db->mk(Op::ULT, 1, 0, y, x);
	case CmpInst::ICMP_UGE: return db->lnot(db->mk(Op::ULT, 1, 0, x, y));
	case CmpInst::ICMP_ULE: return db->lnot(db->mk(Op::ULT, 1, 0, y, x));
	case CmpInst::ICMP_SLT: return db->mk(Op::SLT, 1, 0, x, y);
	case CmpInst::ICMP_SGT: return db->mk(Op::SLT, 1, 0, y, x);
	case CmpInst::ICMP_SGE: return db->lnot(db->mk(Op::SLT, 1, 0, x, y));
	case CmpInst::ICMP_SLE: return db->lnot(db->mk(Op::SLT, 1, 0, y, x));
	default: throw Inconclusive{"float compare"};
	}
}
static Term * rotl(Term * x, unsigned k) { k %= x->w; if (!k) return x; return db->concat(db->extract(x, 0, x->w - k), db->extract(x, x->w - k, k)); }

static bool intrinsic(State & s, IntrinsicInst * I, std::vector<Val> & a, Val & ret) {
	unsigned w = bitsOf(I->getType());
	switch (I->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 k = concretise(s, a[2].t, "memcpy size"); copyBytes(s, concretePtr(s, a[0].t), concretePtr(s, a[1].t), k); return true; }
	case Intrinsic::memset: case Intrinsic::memset_inline: { u64 k = concretise(s, a[2].t, "memset size"), p = concretePtr(s, a[0].t); if (k) { Loc l = access(s, p, k, true); Obj * o = wr(s, l.uid); for (u64 i = 0; i < k; i++) o->b[l.off + i] = Byte{a[1].t, 0}; } return true; }
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
		Term * p = a[1].t; if (isC(p)) { u64 uid = p->imm >> 32; if (uid && uid < s.mem.size() && s.mem[uid] && p->imm == mkaddr(uid) && s.mem[uid]->alive) { Obj * o = wr(s, (uint32_t)uid); std::fill(o->b.begin(), o->b.end(), Byte{nullptr, 0}); } }
		return true;
	}
	case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::vaend: return true;
	case Intrinsic::invariant_start: case Intrinsic::stacksave: ret = C(0, 64); return true;
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: ret = a[0]; return true;
	case Intrinsic::is_constant: ret = C(0, 1); return true;
	case Intrinsic::objectsize: ret = C(~0ull, w); return true;
	case Intrinsic::trap: case Intrinsic::debugtrap: violate("trap", "trap reached");
	case Intrinsic::ubsantrap: {
		static const char * k[] = {"add-overflow", "builtin-unreachable", "cfi-check-fail", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound-not-positive"};
		u64 c = a[0].t->imm; violate("undefined-behaviour", c < 25 ? k[c] : "ubsan trap");
	}
	case Intrinsic::bswap: {
		Term * x = a[0].t;
		if (isC(x)) { u64 r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((x->imm >> i) & 0xff) << (w - 8 - i); ret = C(r, w); return true; }
		Term * r = nullptr; for (unsigned i = 0; i < w; i += 8) { Term * b = db->extract(x, i, 8); r = r ? db->concat(r, b) : b; } ret = r; return true;
	}
	case Intrinsic::fshl: case Intrinsic::fshr: {
		bool l = I->getIntrinsicID() == Intrinsic::fshl;
		if (isC(a[2].t)) {
			unsigned k = a[2].t->imm % w;
			if (a[0].t == a[1].t) { ret = rotl(a[0].t, l ? k : (w - k) % w); return true; }
			if (!k) { ret = l ? a[0] : a[1]; return true; }
			unsigned sh = l ? k : w - k; // result = (hi << sh) | (lo >> (w - sh))
			ret = db->concat(db->extract(a[0].t, 0, w - sh), db->extract(a[1].t, w - sh, sh)); return true;
		}
		Term * k = db->mk(Op::AND, w, 0, a[2].t, C(w - 1, w)); // w is a power of two
		if (w & (w - 1)) throw Inconclusive{"funnel shift width"};
		Term * ik = db->mk(Op::SUB, w, 0, C(w, w), k);
		Term * hi = db->mk(Op::SHL, w, 0, a[0].t, l ? k : ik); Term * lo = db->mk(Op::LSHR, w, 0, a[1].t, l ? ik : k);
		ret = db->lor(hi, lo); return true;
	}
	case Intrinsic::ctpop: { Term * r = C(0, w); for (unsigned i = 0; i < w; i++) r = db->mk(Op::ADD, w, 0, r, w == 1 ? a[0].t : db->zext(db->extract(a[0].t, i, 1), w)); ret = r; return true; }
	case Intrinsic::ctlz: { Term * r = C(w, w); for (unsigned i = 0; i < w; i++) r = db->ite(db->extract(a[0].t, i, 1), C(w - 1 - i, w), r); ret = r; return true; }
	case Intrinsic::cttz: { Term * r = C(w, w); for (int i = w - 1; i >= 0; i--) r = db->ite(db->extract(a[0].t, i, 1), C(i, w), r); ret = r; return true; }
	case Intrinsic::umin: ret = db->ite(db->mk(Op::ULT, 1, 0, a[0].t, a[1].t), a[0].t, a[1].t); return true;
	case Intrinsic::umax: ret = db->ite(db->mk(Op::ULT, 1, 0, a[0].t, a[1].t), a[1].t, a[0].t); return true;
	case Intrinsic::smin: ret = db->ite(db->mk(Op::SLT, 1, 0, a[0].t, a[1].t), a[0].t, a[1].t); return true;
	case Intrinsic::smax: ret = db->ite(db->mk(Op::SLT, 1, 0, a[0].t, a[1].t), a[1].t, a[0].t); return true;
	case Intrinsic::abs: ret = db->ite(db->extract(a[0].t, w - 1, 1), db->mk(Op::SUB, w, 0, C(0, w), a[0].t), a[0].t); return true;
	case Intrinsic::uadd_sat: { Term * r = db->mk(Op::ADD, w, 0, a[0].t, a[1].t); ret = db->ite(db->mk(Op::ULT, 1, 0, r, a[0].t), C(~0ull, w), r); return true; }
	case Intrinsic::usub_sat: ret = db->ite(db->mk(Op::ULT, 1, 0, a[0].t, a[1].t), C(0, w), db->mk(Op::SUB, w, 0, a[0].t, a[1].t)); return true;
	default: break;
	}
	if (auto * wo = dyn_cast<WithOverflowInst>(I)) {
		Term *x = a[0].t, *y = a[1].t; unsigned k = x->w; Term *r = nullptr, *o = nullptr;
		bool sg = wo->isSigned();
		auto ov2 = [&](Op op) { // by extension to double width when it fits
			if (2 * k <= 64) {
				Term * X = sg ? db->sext(x, 2 * k) : db->zext(x, 2 * k); Term * Y = sg ? db->sext(y, 2 * k) : db->zext(y, 2 * k);
				Term * W = db->mk(op, 2 * k, 0, X, Y); r = db->extract(W, 0, k);
				o = db->lnot(db->eq(W, sg ? db->sext(r, 2 * k) : db->zext(r, 2 * k))); return;
			}
			r = db->mk(op, k, 0, x, y);
			if (op == Op::ADD && !sg) o = db->mk(Op::ULT, 1, 0, r, x);
			else if (op == Op::SUB && !sg) o = db->mk(Op::ULT, 1, 0, x, y);
			else if (op == Op::ADD) { Term *sx_ = db->extract(x, k - 1, 1), *sy = db->extract(y, k - 1, 1), *sr = db->extract(r, k - 1, 1); o = db->land(db->eq(sx_, sy), db->lnot(db->eq(sx_, sr))); }
			else if (op == Op::SUB) { Term *sx_ = db->extract(x, k - 1, 1), *sy = db->extract(y, k - 1, 1), *sr = db->extract(r, k - 1, 1); o = db->land(db->lnot(db->eq(sx_, sy)), db->lnot(db->eq(sx_, sr))); }
			else if (isC(y) || isC(x)) { // multiply by a constant
				if (isC(x)) std::swap(x, y);
				if (sg) { if (isC(x)) { __int128 p = (__int128)(int64_t)x->imm * (int64_t)y->imm; o = C(p != (int64_t)p, 1); } else if (db->lzb(x) && (int64_t)y->imm > 0) { u64 lim = (u64)INT64_MAX / y->imm; o = db->mk(Op::ULT, 1, 0, C(lim, 64), x); } else throw Inconclusive{"signed 64-bit multiply overflow"}; }
				else o = y->imm ? db->mk(Op::ULT, 1, 0, C(maskw(k) / y->imm, k), x) : C(0, 1);
			} else { // both symbolic, unsigned: x != 0 && r / x != y
				if (sg) throw Inconclusive{"signed 64-bit symbolic multiply overflow"};
				o = db->land(db->lnot(db->eq(x, C(0, k))), db->lnot(db->eq(db->mk(Op::UDIV, k, 0, r, x), y)));
			}
		};
		ov2(wo->getBinaryOp() == Instruction::Add ? Op::ADD : wo->getBinaryOp() == Instruction::Sub ? Op::SUB : Op::MUL);
		Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(r); v.agg->push_back(o);
		ret = v; return true;
	}
	return false;
}

// wide integers (65..128 bits) are vectors of 64-bit limbs; a small set of operations is supported
static bool isWide(Type * t) { return t->isIntegerTy() && t->getIntegerBitWidth() > 64; }
static Val wideLoad(State & s, Term * a, unsigned bits) {
	Val v; v.agg = std::make_shared<std::vector<Val>>();
	for (unsigned i = 0; i < bits; i += 64) v.agg->push_back(load(s, db->mk(Op::ADD, 64, 0, a, C(i / 8, 64)), std::min(64u, bits - i)));
	return v;
}

static Val loadTyped(State & s, Term * p, Type * t) {
	if (isWide(t)) return wideLoad(s, p, t->getIntegerBitWidth());
	if (unsigned b = bitsOf(t)) return load(s, p, b);
	if (auto * st = dyn_cast<StructType>(t)) {
		Val v; v.agg = std::make_shared<std::vector<Val>>();
		const StructLayout * L = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadTyped(s, db->mk(Op::ADD, 64, 0, p, C(L->getElementOffset(i), 64)), st->getElementType(i)));
		return v;
	}
	if (auto * at = dyn_cast<ArrayType>(t)) {
		Val v; v.agg = std::make_shared<std::vector<Val>>(); u64 es = DL->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadTyped(s, db->mk(Op::ADD, 64, 0, p, C(i * es, 64)), at->getElementType()));
		return v;
	}
	throw Inconclusive{"load of unsupported type"};
}
static void storeTyped(State & s, Term * p, const Val & v, Type * t) {
	if (isWide(t)) { unsigned k = 0; for (auto & e : *v.agg) { store(s, db->mk(Op::ADD, 64, 0, p, C(k, 64)), e.t); k += 8; } return; }
	if (bitsOf(t)) { if (!v.t) throw Inconclusive{"store of unsupported value"}; store(s, p, v.t); return; }
	if (auto * st = dyn_cast<StructType>(t)) {
		const StructLayout * L = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) storeTyped(s, db->mk(Op::ADD, 64, 0, p, C(L->getElementOffset(i), 64)), (*v.agg)[i], st->getElementType(i));
		return;
	}
	if (auto * at = dyn_cast<ArrayType>(t)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); i++) storeTyped(s, db->mk(Op::ADD, 64, 0, p, C(i * es, 64)), (*v.agg)[i], at->getElementType());
		return;
	}
	throw Inconclusive{"store of unsupported type"};
}
static std::string istr(Instruction * I) { std::string x; raw_string_ostream o(x); I->print(o); return x; }

static void branchOn(State & s, Term * c, unsigned bt, unsigned bf) {
	Frame & f = s.st.back();
	if (isC(c)) { jump(s, f, c->imm ? bt : bf); return; }
	checkUndef(s, c);
	S.branches_sym++;
	Term * nc = db->lnot(c);
	bool ft = feasible(s, c, nullptr, S.q_branch), ff = ft ? feasible(s, nc, nullptr, S.q_branch) : true;
	if (ft && ff) {
		State o = s;
		add_pc(o, nc);
		jump(o, o.st.back(), bf);
		pushState(std::move(o));
		add_pc(s, c);
		jump(s, s.st.back(), bt);
	} else if (ft) jump(s, f, bt);
	else jump(s, f, bf);
}

static void ret(State & s, Val v) {
	popFrame(s);
	if (s.st.empty()) throw PathEnd{};
	Frame & f = s.st.back();
	Inst & in = f.fn->blocks[f.bb].insts[f.ip];
	setv(f, in, v);
	if (auto * iv = dyn_cast<InvokeInst>(in.I)) jump(s, f, f.fn->bbidx[iv->getNormalDest()]);
	else f.ip++;
}
static void doCall(State & s, Inst & in, CallBase * cb) {
	Frame & f = s.st.back();
	std::vector<Val> args;
	for (unsigned i = 0; i < cb->arg_size(); i++) {
		if (cb->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(Val{}); continue; }
		args.push_back(getv(s, f, in.ops[i], cb->getArgOperand(i)->getType()));
	}
	const Function * F = cb->getCalledFunction();
	if (!F) {
		if (cb->isInlineAsm()) { // empty asm used as an optimisation barrier
			auto * ia = cast<InlineAsm>(cb->getCalledOperand());
			if (!ia->getAsmString().empty()) throw Inconclusive{"inline assembly"};
			if (cb->getType()->isVoidTy()) { if (auto * iv = dyn_cast<InvokeInst>(cb)) jump(s, f, f.fn->bbidx[iv->getNormalDest()]); else f.ip++; return; }
			throw Inconclusive{"inline assembly with result"};
		}
		unsigned ci = 0; for (unsigned i = 0; i < cb->getNumOperands(); i++) if (&cb->getOperandUse(i) == &cb->getCalledOperandUse()) ci = i;
		Term * p = opt_(s, f, in, ci);
		u64 a = concretise(s, p, "function pointer");
		auto it = fnaddr.find(a);
		if (it == fnaddr.end()) violate("memory-safety", "call through an invalid function pointer");
		F = it->second;
	}
	if (!F->isDeclaration()) {
		enter(s, fns.at(F).get(), std::move(args));
		return;
	}
	Val r; bool control = false;
	if (F->isIntrinsic()) {
		auto * ii = dyn_cast<IntrinsicInst>(cb);
		if (F->getIntrinsicID() == Intrinsic::eh_typeid_for) { r = C((u64)typeIdFor(tiName(cb->getArgOperand(0))), 32); }
		else if (!ii || !intrinsic(s, ii, args, r)) throw Inconclusive{"unsupported intrinsic " + F->getName().str()};
	} else if (!external(s, F, args, r, control)) throw Inconclusive{"unsupported external function " + llvm::demangle(F->getName().str()) + " [" + F->getName().str() + "] from " + where(s)};
	if (control) return;
	Frame & g = s.st.back();
	if (in.dst >= 0) { if (!r.t && !r.agg && !cb->getType()->isVoidTy()) r = constVal(UndefValue::get(cb->getType())); setv(g, in, r); }
	if (auto * iv = dyn_cast<InvokeInst>(cb)) jump(s, g, g.fn->bbidx[iv->getNormalDest()]);
	else g.ip++;
}
static void divCheck(State & s, Term * y) { requireTrue(s, db->lnot(db->eq(y, C(0, y->w))), "undefined-behaviour", "division by zero"); }

static void step(State & s) {
	Frame & f = s.st.back();
	Inst & in = f.fn->blocks[f.bb].insts[f.ip];
	Instruction * I = in.I;
	S.insts++; s.insts++;
	unsigned w = bitsOf(I->getType());
	switch (I->getOpcode()) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
		if (isWide(I->getType())) {
			Val x = opv(s, f, in, 0), y = opv(s, f, in, 1); Val r; r.agg = std::make_shared<std::vector<Val>>();
			Op op = I->getOpcode() == Instruction::And ? Op::AND : I->getOpcode() == Instruction::Or ? Op::OR : I->getOpcode() == Instruction::Xor ? Op::XOR : Op::CONST;
			if (op != Op::CONST) for (size_t i = 0; i < x.agg->size(); i++) r.agg->push_back(db->bin(op, (*x.agg)[i].t, (*y.agg)[i].t));
			else if (I->getOpcode() == Instruction::Add && x.agg->size() == 2 && (*x.agg)[1].t->w == 64) {
				Term * lo = db->bin(Op::ADD, (*x.agg)[0].t, (*y.agg)[0].t); Term * c = db->mk(Op::ULT, 1, 0, lo, (*x.agg)[0].t);
				r.agg->push_back(lo); r.agg->push_back(db->bin(Op::ADD, db->bin(Op::ADD, (*x.agg)[1].t, (*y.agg)[1].t), db->zext(c, 64)));
			} else if (I->getOpcode() == Instruction::Mul && x.agg->size() == 2 && (*x.agg)[1].t->w == 64 && isC((*x.agg)[1].t) && isC((*y.agg)[1].t) && !(*x.agg)[1].t->imm && !(*y.agg)[1].t->imm) {
				// 64x64->128 through 32-bit halves
				Term *p = (*x.agg)[0].t, *q = (*y.agg)[0].t;
				auto lo32 = [&](Term * t) { return db->zext(db->extract(t, 0, 32), 64); }; auto hi32 = [&](Term * t) { return db->zext(db->extract(t, 32, 32), 64); };
				Term *ll = db->bin(Op::MUL, lo32(p), lo32(q)), *lh = db->bin(Op::MUL, lo32(p), hi32(q)), *hl = db->bin(Op::MUL, hi32(p), lo32(q)), *hh = db->bin(Op::MUL, hi32(p), hi32(q));
				Term * mid = db->bin(Op::ADD, db->bin(Op::ADD, lo32(lh), lo32(hl)), hi32(ll));
				r.agg->push_back(db->bin(Op::MUL, p, q));
				r.agg->push_back(db->bin(Op::ADD, db->bin(Op::ADD, hh, hi32(mid)), db->bin(Op::ADD, hi32(lh), hi32(hl))));
			} else throw Inconclusive{"wide integer operation: " + istr(I)};
			setv(f, in, r); f.ip++; return;
		}
		if (!w) throw Inconclusive{"vector operation: " + istr(I)};
		static const std::map<unsigned, Op> m = {{Instruction::Add, Op::ADD}, {Instruction::Sub, Op::SUB}, {Instruction::Mul, Op::MUL}, {Instruction::And, Op::AND}, {Instruction::Or, Op::OR}, {Instruction::Xor, Op::XOR}};
		Op op; switch (I->getOpcode()) { case Instruction::Add: op = Op::ADD; break; case Instruction::Sub: op = Op::SUB; break; case Instruction::Mul: op = Op::MUL; break; case Instruction::And: op = Op::AND; break; case Instruction::Or: op = Op::OR; break; default: op = Op::XOR; }
		setv(f, in, db->bin(op, opt_(s, f, in, 0), opt_(s, f, in, 1))); f.ip++; return;
	}
	case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
		Term *x = opt_(s, f, in, 0), *y = opt_(s, f, in, 1);
		if (!isC(y) || !y->imm) divCheck(s, y);
		Op op = I->getOpcode() == Instruction::UDiv ? Op::UDIV : I->getOpcode() == Instruction::URem ? Op::UREM : I->getOpcode() == Instruction::SDiv ? Op::SDIV : Op::SREM;
		if ((op == Op::SDIV || op == Op::SREM) && db->lzb(x) && db->lzb(y)) op = op == Op::SDIV ? Op::UDIV : Op::UREM;
		setv(f, in, db->bin(op, x, y)); f.ip++; return;
	}
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
		if (isWide(I->getType())) {
			Val x = opv(s, f, in, 0), y = opv(s, f, in, 1);
			if (x.agg->size() != 2 || !isC((*y.agg)[0].t) || (*x.agg)[1].t->w != 64) throw Inconclusive{"wide shift"};
			u64 k = (*y.agg)[0].t->imm; Val r; r.agg = std::make_shared<std::vector<Val>>(); Term *lo = (*x.agg)[0].t, *hi = (*x.agg)[1].t;
			if (I->getOpcode() == Instruction::Shl) { if (k == 0) r = x; else if (k >= 64) { r.agg->push_back(C(0, 64)); r.agg->push_back(db->mk(Op::SHL, 64, 0, lo, C(k - 64, 64))); } else { r.agg->push_back(db->mk(Op::SHL, 64, 0, lo, C(k, 64))); r.agg->push_back(db->concat(db->extract(hi, 0, 64 - k), db->extract(lo, 64 - k, k))); } }
			else if (I->getOpcode() == Instruction::LShr) { if (k == 0) r = x; else if (k >= 64) { r.agg->push_back(db->mk(Op::LSHR, 64, 0, hi, C(k - 64, 64))); r.agg->push_back(C(0, 64)); } else { r.agg->push_back(db->concat(db->extract(hi, 0, k), db->extract(lo, k, 64 - k))); r.agg->push_back(db->mk(Op::LSHR, 64, 0, hi, C(k, 64))); } }
			else throw Inconclusive{"wide ashr"};
			setv(f, in, r); f.ip++; return;
		}
		Op op = I->getOpcode() == Instruction::Shl ? Op::SHL : I->getOpcode() == Instruction::LShr ? Op::LSHR : Op::ASHR;
		Term *x = opt_(s, f, in, 0), *y = opt_(s, f, in, 1);
		// an over-wide shift yields poison, which only matters if the value is used (the sanitized variant traps on it instead)
		if (isC(y) ? y->imm >= w : db->umax(y) >= w) {
			if (isC(y)) setv(f, in, freshUndef(w));
			else setv(f, in, db->ite(db->mk(Op::ULT, 1, 0, y, C(w, y->w)), db->bin(op, x, y), freshUndef(w)));
		} else setv(f, in, db->bin(op, x, y));
		f.ip++; return;
	}
	case Instruction::ICmp: {
		auto * c = cast<ICmpInst>(I);
		if (isWide(I->getOperand(0)->getType())) {
			Val x = opv(s, f, in, 0), y = opv(s, f, in, 1); Term * e = C(1, 1); Term * lt = C(0, 1);
			for (size_t i = 0; i < x.agg->size(); i++) { Term *p = (*x.agg)[i].t, *q = (*y.agg)[i].t; lt = db->lor(db->mk(Op::ULT, 1, 0, p, q), db->land(db->eq(p, q), lt)); e = db->land(e, db->eq(p, q)); }
			Term * r;
			switch (c->getPredicate()) { case CmpInst::ICMP_EQ: r = e; break; case CmpInst::ICMP_NE: r = db->lnot(e); break; case CmpInst::ICMP_ULT: r = lt; break; case CmpInst::ICMP_UGE: r = db->lnot(lt); break; case CmpInst::ICMP_ULE: r = db->lor(lt, e); break; case CmpInst::ICMP_UGT: r = db->lnot(db->lor(lt, e)); break; default: throw Inconclusive{"wide signed compare"}; }
			setv(f, in, r); f.ip++; return;
		}
		setv(f, in, icmp(c->getPredicate(), opt_(s, f, in, 0), opt_(s, f, in, 1))); f.ip++; return;
	}
	case Instruction::Trunc:
		if (isWide(I->getOperand(0)->getType())) { Val x = opv(s, f, in, 0); if (!w) throw Inconclusive{"wide trunc"}; setv(f, in, db->extract((*x.agg)[0].t, 0, w)); f.ip++; return; }
		setv(f, in, db->extract(opt_(s, f, in, 0), 0, w)); f.ip++; return;
	case Instruction::ZExt:
		if (isWide(I->getType())) { unsigned tw = I->getType()->getIntegerBitWidth(); Val r; r.agg = std::make_shared<std::vector<Val>>(); if (isWide(I->getOperand(0)->getType())) throw Inconclusive{"wide zext"}; r.agg->push_back(db->zext(opt_(s, f, in, 0), 64)); for (unsigned i = 64; i < tw; i += 64) r.agg->push_back(C(0, std::min(64u, tw - i))); setv(f, in, r); f.ip++; return; }
		setv(f, in, db->zext(opt_(s, f, in, 0), w)); f.ip++; return;
	case Instruction::SExt: if (!w) throw Inconclusive{"wide sext"}; setv(f, in, db->sext(opt_(s, f, in, 0), w)); f.ip++; return;
	case Instruction::PtrToInt: { Term * t = opt_(s, f, in, 0); setv(f, in, w < 64 ? db->extract(t, 0, w) : t); f.ip++; return; }
	case Instruction::IntToPtr: setv(f, in, db->zext(opt_(s, f, in, 0), 64)); f.ip++; return;
	case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: setv(f, in, opv(s, f, in, 0)); f.ip++; return;
	case Instruction::Select: {
		Term * c = opt_(s, f, in, 0);
		Val x = opv(s, f, in, 1), y = opv(s, f, in, 2);
		if (isC(c)) { setv(f, in, c->imm ? x : y); f.ip++; return; }
		std::function<Val(const Val &, const Val &)> sel = [&](const Val & p, const Val & q) -> Val {
			if (p.t) return db->ite(c, p.t, q.t);
			Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < p.agg->size(); i++) r.agg->push_back(sel((*p.agg)[i], (*q.agg)[i])); return r;
		};
		setv(f, in, sel(x, y)); f.ip++; return;
	}
	case Instruction::GetElementPtr: {
		auto * g = cast<GetElementPtrInst>(I);
		Term * p = opt_(s, f, in, 0);
		unsigned k = 1; u64 coff = 0; Term * soff = nullptr;
		for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
			if (StructType * st = it.getStructTypeOrNull()) coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
			else {
				u64 sz = DL->getTypeAllocSize(it.getIndexedType());
				Term * ix = opt_(s, f, in, k);
				if (ix->w < 64) ix = db->sext(ix, 64); else if (ix->w > 64) throw Inconclusive{"gep index"};
				if (isC(ix)) coff += ix->imm * sz;
				else { Term * t = db->mk(Op::MUL, 64, 0, ix, C(sz, 64)); soff = soff ? db->mk(Op::ADD, 64, 0, soff, t) : t; }
			}
		}
		Term * r = p;
		if (soff && p->op == Op::ITE) r = db->mk(Op::ADD, 64, 0, p, soff);
		else if (soff) r = db->mk(Op::ADD, 64, 0, p, soff);
		if (coff) {
			if (r->op == Op::ITE) { // keep selects of pointers as selects
				std::function<Term *(Term *)> push = [&](Term * t) -> Term * { if (t->op == Op::ITE) return db->ite(t->a[0], push(t->a[1]), push(t->a[2])); return db->mk(Op::ADD, 64, 0, t, C(coff, 64)); };
				r = push(r);
			} else r = db->mk(Op::ADD, 64, 0, r, C(coff, 64));
		}
		setv(f, in, r); f.ip++; return;
	}
	case Instruction::Alloca: {
		auto * a = cast<AllocaInst>(I);
		u64 n = concretise(s, opt_(s, f, in, 0), "alloca size");
		uint32_t u = newObj(s, DL->getTypeAllocSize(a->getAllocatedType()) * n, a->getName().str().empty() ? "local" : a->getName().str());
		f.allocas.push_back(u);
		setv(f, in, C(mkaddr(u), 64)); f.ip++; return;
	}
	case Instruction::Load: setv(f, in, loadTyped(s, opt_(s, f, in, 0), I->getType())); f.ip++; return;
	case Instruction::Store: storeTyped(s, opt_(s, f, in, 1), opv(s, f, in, 0), I->getOperand(0)->getType()); f.ip++; return;
	case Instruction::ExtractValue: {
		Val v = opv(s, f, in, 0);
		for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
		setv(f, in, v); f.ip++; return;
	}
	case Instruction::InsertValue: {
		Val v = opv(s, f, in, 0), x = opv(s, f, in, 1);
		auto idx = cast<InsertValueInst>(I)->getIndices();
		std::function<Val(const Val &, unsigned)> ins = [&](const Val & b, unsigned d) -> Val {
			if (d == idx.size()) return x;
			Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg);
			(*r.agg)[idx[d]] = ins((*b.agg)[idx[d]], d + 1);
			return r;
		};
		setv(f, in, ins(v, 0)); f.ip++; return;
	}
	case Instruction::Br: {
		auto * b = cast<BranchInst>(I);
		if (b->isUnconditional()) { jump(s, f, f.fn->bbidx[b->getSuccessor(0)]); return; }
		branchOn(s, opt_(s, f, in, 0), f.fn->bbidx[b->getSuccessor(0)], f.fn->bbidx[b->getSuccessor(1)]);
		return;
	}
	case Instruction::Switch: {
		auto * sw = cast<SwitchInst>(I);
		Term * c = opt_(s, f, in, 0);
		if (isC(c)) { for (auto & cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c->imm) { jump(s, f, f.fn->bbidx[cs.getCaseSuccessor()]); return; } jump(s, f, f.fn->bbidx[sw->getDefaultDest()]); return; }
		checkUndef(s, c);
		S.branches_sym++;
		std::map<unsigned, Term *> dest; Term * any = C(0, 1);
		for (auto & cs : sw->cases()) { Term * e = db->eq(c, C(cs.getCaseValue()->getZExtValue(), c->w)); unsigned d = f.fn->bbidx[cs.getCaseSuccessor()]; dest[d] = dest.count(d) ? db->lor(dest[d], e) : e; any = db->lor(any, e); }
		unsigned dd = f.fn->bbidx[sw->getDefaultDest()]; Term * no = db->lnot(any);
		dest[dd] = dest.count(dd) ? db->lor(dest[dd], no) : no;
		std::vector<std::pair<unsigned, Term *>> ok;
		for (auto & [d, e] : dest) if (feasible(s, e, nullptr, S.q_branch)) ok.push_back({d, e});
		if (ok.empty()) throw PathEnd{};
		for (size_t i = 1; i < ok.size(); i++) { State o = s; add_pc(o, ok[i].second); jump(o, o.st.back(), ok[i].first); pushState(std::move(o)); }
		add_pc(s, ok[0].second); jump(s, s.st.back(), ok[0].first);
		return;
	}
	case Instruction::Ret: ret(s, I->getNumOperands() ? opv(s, f, in, 0) : Val{}); return;
	case Instruction::Call: case Instruction::Invoke: doCall(s, in, cast<CallBase>(I)); return;
	case Instruction::Resume: {
		popFrame(s);
		if (s.st.empty()) violate("uncaught-exception", s.inflight.tiname);
		unwind(s);
		return;
	}
	case Instruction::Unreachable: violate("undefined-behaviour", "unreachable code reached");
	case Instruction::Fence: f.ip++; return;
	default: throw Inconclusive{"unsupported instruction: " + istr(I) + " in " + where(s)};
	}
}

// ------------------------------------------------------------------ rewrite audit
static std::unordered_set<std::string> auditSeen, auditDeeper; // proven shapes; shapes whose operands must be looked into more deeply
static std::unordered_map<std::string, unsigned> auditInst;
static u64 auditFail = 0, auditN = 0;
static void auditCb(Op op, unsigned w, u64 imm, Term * x, Term * y, Term * z, Term * r) {
	static u64 calls = 0;
	if (opt.auditPer != ~0u && ++calls > 20000 && calls % 61) { S.audit_skipped++; return; }
	// prove mk(op, x, y, z) == r with all sub-terms below depth 3 opaque
	std::unordered_map<Term *, bool> lv;
	Term fake; memset(&fake, 0, sizeof fake); fake.op = op; fake.w = (uint8_t)w; fake.imm = imm; fake.a[0] = x; fake.a[1] = y; fake.a[2] = z; fake.nargs = z ? 3 : y ? 2 : 1;
	bool proven = false;
	bool refuted = false;
	for (int d : {2, 3, 5, 8, 40}) {
		lv.clear(); refuted = false;
		cut(&fake, r, d, lv);
		std::unordered_map<Term *, int> num; std::string key; int next = 0;
		shape(&fake, d, num, lv, key, next); key += "= "; shape(r, d, num, lv, key, next);
		if (auditSeen.count(key)) { proven = true; break; }
		if (auditDeeper.count(key)) continue;
		if (opt.auditPer != ~0u) {
			std::string k2;
for (size_t i = 0; i < key.size(); i++) { // keep operators and sharing, drop constants, widths and offsets
				k2 += key[i];
				if (key[i] == 'c' || key[i] == 'L') while (i + 1 < key.size() && key[i + 1] != ' ') i++;
				if (key[i] == '(') { while (key[i + 1] != ':') k2 += key[++i]; while (i + 1 < key.size() && key[i + 1] != ' ') i++; }
			}
			if (auditInst[k2]++ >= opt.auditPer) { proven = true; S.audit_skipped++; break; }
		}
		std::unordered_map<Term *, z3::expr> leaves;
		for (auto & [t, b] : lv) leaves.emplace(t, zc->bv_const(("l" + std::to_string(t->id)).c_str(), t->w));
		double a = now();
		z3::solver s = z3::tactic(*zc, "qfbv").mk_solver();
		z3::params p(*zc); p.set("timeout", 5000u); s.set(p);
		Z3T tr; tr.leaves = &leaves;
		s.add(tr.tr(&fake) != tr.tr(r));
		S.q_audit++;
		auto rs = s.check();
		bool ok = rs == z3::unsat;
		refuted = rs == z3::sat;
		S.z3time += now() - a;
		if (ok) { auditSeen.insert(key); auditN++; proven = true; break; }
		auditDeeper.insert(key);
	}
	if (!proven && !refuted) { S.audit_unproven++; return; } // the solver gave up: the rewrite was still checked on the sample vectors
	if (!proven) { auditFail++; fprintf(stderr, "AUDIT: rewrite not proven: op=%d %s -> %s\n", (int)op, x ? db->str(x, 3).c_str() : "", db->str(r, 3).c_str()); }
}

// ------------------------------------------------------------------ main
static std::string status = "complete", why;
static void writeResult() {
	std::ofstream o(opt.outdir + "/result_" + std::to_string(opt.shard) + ".json");
	o << "{\"status\":" << jstr(status) << ",\"why\":" << jstr(why) << ",\"entry\":" << jstr(opt.entry) << ",\"shard\":" << opt.shard;
	o << ",\"paths\":" << S.paths << ",\"forks\":" << S.forks << ",\"insts\":" << S.insts << ",\"symbolic_branches\":" << S.branches_sym;
	o << ",\"q_branch\":" << S.q_branch << ",\"q_full\":" << S.q_full << ",\"q_lemma\":" << S.q_lemma << ",\"q_bounds\":" << S.q_bounds << ",\"q_audit\":" << S.q_audit << ",\"q_other\":" << S.q_other;
	o << ",\"xor_equal\":" << S.xor_equal << ",\"lemma_uses\":" << S.lemma_uses << ",\"lemma_cached\":" << S.lemma_cached;
	o << ",\"eq_checks\":" << S.eq_checks << ",\"eq_bytes\":" << S.eq_bytes << ",\"eq_structural\":" << S.eq_structural << ",\"eq_sweep\":" << S.eq_sweep << ",\"eq_full\":" << S.eq_full;
	o << ",\"bool_checks\":" << S.bool_checks << ",\"bool_const\":" << S.bool_const << ",\"bool_solver\":" << S.bool_solver << ",\"bounds_checks\":" << S.bounds_checks;
	o << ",\"terms\":" << db->created << ",\"rewrites\":" << db->rewrites << ",\"audit_shapes\":" << auditN << ",\"audit_skipped\":" << S.audit_skipped << ",\"audit_unproven\":" << S.audit_unproven << ",\"audit_fail\":" << auditFail;
	char b[64]; snprintf(b, sizeof b, ",\"z3time\":%.3f,\"wall\":%.3f", S.z3time, now() - t0); o << b;
	o << ",\"reach\":{"; bool first = true; for (auto & [k, v] : reach) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; } o << "}";
	o << ",\"checks\":{"; first = true; for (auto & [k, v] : checkcount) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; } o << "}";
	o << ",\"ranges\":{"; first = true; for (auto & [k, v] : ranges) { o << (first ? "" : ",") << jstr(k) << ":[" << v.first << "," << v.second << "]"; first = false; } o << "}";
	if (!opt.raw.empty()) { // before inlining: every function of the library reachable from the entry point
		SMDiagnostic err; auto rm = parseIRFile(opt.raw, err, *ctxp);
		if (rm) if (Function * e = rm->getFunction(opt.entry)) {
			std::set<Function *> seen{e}; std::vector<Function *> q{e};
			while (!q.empty()) { Function * f = q.back(); q.pop_back(); for (auto & B : *f) for (auto & I : B) for (auto & u : I.operands()) if (auto * g = dyn_cast<Function>(u.get()->stripPointerCasts())) if (seen.insert(g).second) q.push_back(g); }
			for (auto * f : seen) if (!f->isDeclaration()) execfns.insert(f->getName().str());
		}
	}
	o << ",\"functions\":["; first = true;
	for (auto & n : execfns) { std::string d = llvm::demangle(n); if (d.find("cthash::") == std::string::npos) continue; if (d.size() > 220) d = d.substr(0, 217) + "..."; o << (first ? "" : ",") << jstr(d); first = false; }
	o << "],\"violations\":["; first = true;
	for (size_t i = 0; i < viols.size(); i++) { o << (first ? "" : ",") << "{\"file\":" << jstr(viols[i]) << ",\"what\":" << jstr(violLabels[i]) << "}"; first = false; }
	o << "]}\n";
}
int main(int argc, char ** argv) {
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(argv[++i]); };
		if (a == "--entry") opt.entry = nx();
		else if (a == "--raw") opt.raw = nx();
		else if (a == "--out") opt.outdir = nx();
		else if (a == "--seed") opt.seed = std::stoull(nx());
		else if (a == "--shard") opt.shard = std::stoi(nx());
		else if (a == "--nshards") opt.nshards = std::stoi(nx());
		else if (a == "--budget") opt.budget = std::stod(nx());
		else if (a == "--qtimeout") opt.qtimeout = std::stoul(nx());
		else if (a == "--witnesses") opt.witnesses = std::stoi(nx());
		else if (a == "--concrete") { opt.concrete = nx(); concreteMode = true; }
		else if (a == "--audit") opt.audit = true;
		else if (a == "--audit-per") opt.auditPer = (unsigned)std::stoul(nx());
		else if (a == "--smtdump") opt.smtdump = nx();
		else if (a == "-v") opt.verbose = true;
		else opt.bc = a;
	}
	t0 = now();
	db = new TermDB(opt.seed);
	z3::context zctx; zc = &zctx;
	LLVMContext lctx; ctxp = &lctx;
	if (concreteMode) {
		std::ifstream f(opt.concrete); std::string l;
		while (std::getline(f, l)) { if (l.empty() || l[0] == '#' || l[0] == '!') continue; auto p = l.rfind('='); if (p != std::string::npos) concrete[l.substr(0, p)] = std::stoull(l.substr(p + 1)); }
	}
	if (opt.audit) { db->audit = true; db->audit_cb = auditCb; }
	loadModule();
	Function * E = mod->getFunction(opt.entry);
	if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
	State init; init.mem = initmem;
	auto runGuarded = [&](State & s) {
		bool ended = false, completed = false;
		try {
			while (true) {
				step(s);
				if ((S.insts & 0xffff) == 0) { if (now() - t0 > opt.budget) throw Inconclusive{"time budget of " + std::to_string((int)opt.budget) + " s exhausted"}; S.maxterms = std::max(S.maxterms, db->arena.size()); }
				if (s.insts > opt.max_insts_per_path) throw Inconclusive{"instruction bound per path exceeded"};
			}
		} catch (PathEnd &) { ended = true; completed = s.st.empty(); }
		catch (Violation & v) {
			ended = true;
			try { Model m; if (path_model(s, nullptr, m)) report(s, v.label, v.detail, m); }
			catch (Inconclusive & i) { status = "inconclusive"; why = i.why; }
		}
		catch (Inconclusive & i) { if (status == "complete") { status = "inconclusive"; why = i.why; } if (i.why.find("time budget") == 0) return false; }
		(void)ended;
		if (completed) {
			S.paths++;
			try {
				// witness for native replay, and evidence that the path is not vacuous
				if (!concreteMode && (nwit < opt.witnesses || (S.paths & (S.paths - 1)) == 0)) {
					Model m;
					if (path_model(s, nullptr, m)) { dumpWitness(s, m, opt.outdir + "/wit_" + std::to_string(opt.shard) + "_" + std::to_string(nwit) + ".txt"); nwit++; }
				}
				if (concreteMode) { Model m; dumpWitness(s, m, opt.outdir + "/concrete.txt"); }
			} catch (Inconclusive &) {}
		}
		return true;
	};
	// static initialisation
	if (auto * g = mod->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto * arr = dyn_cast<ConstantArray>(g->getInitializer())) {
		for (auto & o : arr->operands()) {
			auto * cs = cast<ConstantStruct>(o.get());
			if (auto * F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) if (!F->isDeclaration()) {
				enter(init, fns.at(F).get(), {});
				try { while (true) step(init); } catch (PathEnd &) {} catch (Inconclusive & i) { fprintf(stderr, "static init: %s\n", i.why.c_str()); init.st.clear(); } catch (Violation & v) { fprintf(stderr, "static init: %s\n", v.detail.c_str()); init.st.clear(); }
			}
		}
	}
	init.insts = 0;
	enter(init, fns.at(E).get(), {});
	init.mark = db->mark();
	work.push_back(std::move(init));
	while (!work.empty()) {
		State s = std::move(work.back()); work.pop_back();
		db->truncate(s.mark);
		if (!runGuarded(s)) break;
		if ((int)viols.size() >= opt.maxviol) { why = "stopped after counterexamples"; break; }
		if (opt.verbose && (S.paths % 100) == 0) fprintf(stderr, "[%.1fs] paths=%llu insts=%llu terms=%zu work=%zu\n", now() - t0, (unsigned long long)S.paths, (unsigned long long)S.insts, db->arena.size(), work.size());
	}
	if (auditFail) { status = "inconclusive"; why = "a term rewrite could not be proven"; }
	writeResult();
	_exit(viols.empty() ? (status == "complete" ? 0 : 2) : 1);
}
