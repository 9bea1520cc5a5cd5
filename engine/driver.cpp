// Analyses of one hasher instance: canonical state families, split closure, specification comparison, reset, outputs.
#include "driver.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/IntrinsicInst.h>
#include <regex>
#include <algorithm>
#include <iostream>
#include <sstream>
using std::string; using std::vector; using std::pair;

static string jesc(const string &s)
{
	string r;
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
	return r;
}
string Report::json() const
{
	std::ostringstream o;
	o << "{\"findings\":[";
	bool f = true;
	for (auto &x : findings) { o << (f ? "" : ",") << "\n{\"prop\":\"" << x.prop << "\",\"kind\":\"" << x.kind << "\",\"msg\":\"" << jesc(x.msg) << "\",\"where\":\"" << jesc(x.where) << "\"}"; f = false; }
	o << "],\n\"incomplete\":["; f = true;
	for (auto &x : incomplete) { o << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; }
	o << "],\n\"notes\":["; f = true;
	for (auto &x : notes) { o << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; }
	o << "],\n\"count\":{"; f = true;
	for (auto &x : count) { o << (f ? "" : ",") << "\"" << x.first << "\":" << x.second; f = false; }
	o << "},\n\"functions\":["; f = true;
	for (auto &x : functions) { o << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; }
	o << "]}\n";
	return o.str();
}

typedef vector<N> Bytes;

struct Word { uint32_t obj; uint64_t off; unsigned bytes; };
enum class CK : uint8_t { Const, Copy, Affine, Chain, Junk };

enum Cmp { Same, Random, Differ, Unknown };
struct DeadCall { string what; };

struct Drv
{
	Interp I; const Config &cfg; Report &rep;
	uint32_t msg = 0, key = 0, out = 0, self = 0, self2 = 0;
	long B, G, O; bool lazySpec; i128 maxBytes;
	N p, q;
	Mem zero;                       // before construction
	Facts facts0;
	vector<Word> words; vector<N> iv;
	std::map<pair<uint32_t, uint64_t>, string> why;      // demotion reasons
	std::map<pair<long, int>, Mem> C;                     // canonical (k, p>=1)
	std::map<pair<long, int>, std::map<pair<uint32_t, uint64_t>, string>> demoted;
	bool quick; uint64_t seed;
	double t0;
	static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

	Drv(const llvm::Module &m, const Config &c, Report &r) : I(m), cfg(c), rep(r)
	{
		B = cfg.num("B"); G = cfg.num("G", B); O = B > 1 ? 1 : 0;
		quick = cfg.str("tier", "quick") == "quick"; seed = cfg.num("seed", 1);
		maxBytes = ((i128)1 << (int)cfg.num("maxlog", 61)) - 1;
		if (I.pw == 32) maxBytes = ((i128)1 << 30) - 1;
		t0 = now();
		p = mkVar("p"); q = mkVar("q");
		zero = I.base;
		{ vector<string> pr; I.init(zero, pr); for (auto &x : pr) rep.incomplete.push_back(x); }
		msg = zero.alloc(OK::Ext, 0, "input"); setWin(zero, mkConst(64, 0), mkConst(64, 0)); zero.mut(msg).msg = 0;
		if (cfg.num("keyconst", 0))
		{
			// a long parameter string with fixed contents
			long n = cfg.num("key"); key = zero.alloc(OK::Self, n, "key"); zero.mut(key).ro = true;
			for (long i = 0; i < n; ++i) zero.mut(key).cells[i] = Cell{mkConst(8, (uint8_t)(i * 167 + (i >> 8) * 29 + 1)), 0};
		}
		else { key = zero.alloc(OK::Ext, 0, "key"); zero.mut(key).msg = 1; zero.mut(key).lo = mkConst(64, 0); zero.mut(key).hi = mkConst(64, cfg.num("keylen", cfg.num("key", 16))); }
		inputAddr = {msg}; if (zero.get(key).kind == OK::Ext) inputAddr.insert(key);
		out = zero.alloc(OK::Self, 8192, "result"); 
		uint64_t sz = constFn("h_size"), al = constFn("h_align");
		self = zero.alloc(OK::Self, sz, "hasher"); zero.mut(self).align = al;
		self2 = zero.alloc(OK::Self, sz, "second hasher"); zero.mut(self2).align = al;
	}
	void setWin(Mem &m, N lo, N hi) { Obj &o = m.mut(msg); o.lo = lo; o.hi = hi; }
	N c64(u128 v) { return mkConst(64, v); }
	N psz(N n) { return n->w == I.pw ? n : trunc(n, I.pw); }
	Val V(N n) { Val v; v.n = n; return v; }
	uint64_t constFn(const string &f)
	{
		Facts fz; Facts *old = F; F = &fz; fz.resig();
		Mem m = I.base; Val v = I.call(f, {}, m); F = old;
		if (!v.n || !isConst(v.n)) throw Incomplete{"entry " + f + " is not a constant"};
		return (uint64_t)v.n->k;
	}
	void callv(const string &f, vector<Val> a, Mem &m)
	{
		bool dead = false;
		I.call(f, a, m, &dead);
		if (dead) { if (getenv("HASHAN_DEBUG")) for (auto &e : I.events) std::cerr << "event " << e.kind << " " << e.msg << " @ " << e.where << "\n"; throw DeadCall{f}; }
	}
	// constructor arguments need not outlive the construction
	void keyOpen(Mem &m, bool open) { Obj &o = m.mut(key); if (o.kind == OK::Ext) o.hi = open ? zero.get(key).hi : c64(0); else o.alive = open; }
	void ctor(Mem &m, uint32_t at, const string &f = "h_ctor") { keyOpen(m, true); callv(f, {V(I.ptrTo(at)), V(I.ptrTo(key))}, m); keyOpen(m, false); }
	// 32-bit targets: positions beyond the address space are reached by calls whose buffers start at address 0 of the input
	bool wide = false;
	N window(Mem &m, N pos, N len)
	{
		if (wide) { setWin(m, c64(0), len); m.mut(msg).base = pos; return I.ptrTo(msg); }
		setWin(m, pos, ::add(pos, len)); if (m.get(msg).base) m.mut(msg).base = nullptr;
		return I.ptrTo(msg, pos);
	}
	void add(Mem &m, N pos, N len, uint32_t at = 0)
	{
		N ptr = window(m, pos, len);
		if (I.chain.on) for (auto &w : words) { const Cell &c = m.get(w.obj).cells[w.off]; if (c.n && c.n->op == Op::Atom && c.n->ak == AK::Chain) I.registerChain(c.n->a[0]); }
		callv("h_add", {V(I.ptrTo(at ? at : self)), V(ptr), V(psz(len))}, m);
		foldState(m);
	}
	// (padding blocks are kept as they are computed: their chaining values are not named)
	void fin(Mem &m, uint32_t at = 0) { struct Off { bool &b, o; Off(bool &x) : b(x), o(x) { b = false; } ~Off() { b = o; } } off(I.chain.on); callv("h_fin", {V(I.ptrTo(at ? at : self))}, m); }
	void reset(Mem &m, uint32_t at = 0) { callv("h_reset", {V(I.ptrTo(at ? at : self))}, m); }
	Bytes arr(Mem &m, const string &f = "h_arr", uint64_t len = 0, uint32_t at = 0)
	{
		if (!len) len = cfg.num("D");
		for (auto &c : m.mut(out).cells) c = Cell();
		callv(f, {V(I.ptrTo(at ? at : self)), V(I.ptrTo(out))}, m);
		Bytes b;
		for (uint64_t i = 0; i < len; ++i) { const Cell &c = m.get(out).cells[i]; b.push_back(c.n ? slice(c.n, c.sig * 8, 8) : mkUndef(8)); }
		return b;
	}
	bool stateObj(const Mem &m, uint32_t i) const { if (i == self) return true; if (i <= self2) return false; auto &o = m.get(i); return o.kind == OK::Heap && o.alive; }
	void foldState(Mem &m)
	{
		if (!I.chain.on) return;
		// name the positions the state refers to
		{
			std::set<N> seen, pos;
			for (auto &w : words) { const Cell &c = m.get(w.obj).cells[w.off]; if (c.n && !(c.n->op == Op::Atom)) chainPositions(c.n, seen, pos); }
			for (N P : pos) I.registerChain(P);
		}
		for (uint32_t i = self; i < m.objs.size(); ++i)
		{
			if (!stateObj(m, i)) continue;
			bool need = false;
			for (auto &c : m.get(i).cells) if (c.n && !isConst(c.n) && I.chain.fold.count(c.n)) { need = true; break; }
			if (!need) continue;
			for (auto &c : m.mut(i).cells) if (c.n) for (int n = 0; n < 64; ++n) { N f = I.foldNode(c.n); if (f == c.n) break; c.n = f; }
		}
	}
	static void chainPositions(N n, std::set<N> &seen, std::set<N> &out)
	{
		if (isConst(n) || n->var || !seen.insert(n).second) return;
		if (n->op == Op::Atom) { if (n->ak == AK::Chain) out.insert(n->a[0]); return; }
		for (N x : n->a) chainPositions(x, seen, out);
		for (auto &p : n->ps) if (p.n) chainPositions(p.n, seen, out);
	}
	static N cellByte(const Cell &c) { return c.n ? slice(c.n, c.sig * 8, 8) : nullptr; }

	// Same: equal value numbers. Random: equal under random interpretation. Differ: some valuation of message, chaining value
	// and partition variables (within the current facts) distinguishes them.
	Cmp compare(N a, N b, unsigned rounds = 2, uint64_t sd = 0)
	{
		if (a == b) return Same;
		if (a->w != b->w) return Differ;
		bool dec;
		if (lanesDiffer(a, b, rounds, sd ? sd : seed * 104729 + 7, &dec)) return a->junk || b->junk || a->undef || b->undef ? Unknown : Differ;
		if (mentionsAddr(a) && lanesDiffer(a, b, 1500, seed * 1299709 + 5, &dec)) return a->junk || b->junk || a->undef || b->undef ? Unknown : Differ;
		if (!dec) return Unknown;
		if (!hasDataCmp(a) && !hasDataCmp(b)) return Random;
		if (!a->junk && !b->junk && !a->undef && !b->undef && directed({}, a, b, seed * 7919 + 11)) { ++rep.count["differences_by_directed_valuation"]; return Differ; }
		return Unknown;
	}
	Cmp compareBytes(const Bytes &a, const Bytes &b, size_t &at)
	{
		Cmp r = Same;
		if (a.size() != b.size()) { at = std::min(a.size(), b.size()); return Differ; }
		for (size_t i = 0; i < a.size(); ++i) { Cmp c = compare(a[i], b[i]); if (c == Differ) { at = i; return c; } if (c > r) { r = c; at = i; } }
		return r;
	}
	// ---- partition refinement
	bool constrain(Facts &f, const Aff &e, int depth = 0)
	{
		// e >= 0
		if (e.t.empty()) return e.c >= 0;
		Facts *old = F; F = &f;
		if (e.t.size() == 1 && f.range.count(e.t[0].first->id))
		{
			Range &r = f.range[e.t[0].first->id]; i128 k = e.t[0].second;
			if (k > 0) r.lo = std::max(r.lo, -floordiv(e.c, k)); else r.hi = std::min(r.hi, floordiv(e.c, -k));
			f.resig(); F = old; return r.lo <= r.hi;
		}
		bool ok = hiBound(e) >= 0;
		f.ge0.push_back(e); f.resig(); F = old;
		return ok;
	}
	template <class Fn> void parts(Facts f, Fn fn, int depth = 0)
	{
		struct RF { Facts *o; RF() : o(F) {} ~RF() { F = o; } } rf;
		auto ev = I.events; auto fnd = rep.findings;
		Facts work = f;
		try { F = &work; F->resig(); fn(); return; }
		catch (Split &s)
		{
			I.events = ev; rep.findings = fnd;
			if (getenv("HASHAN_DEBUG")) { std::cerr << "split depth " << depth << (s.eq ? " eq " : " ge ") << show(fromAff(s.cond, 64), 3) << " facts" << factStr() << " hi p " << (long long)(F->range.count(p->id) ? F->range[p->id].hi : -1) << " ge0 " << F->ge0.size() << " at " << s.where << "\n"; }
			if (depth > 14) throw Incomplete{"case analysis too deep at " + s.where};
			Aff n = s.cond; for (auto &t : n.t) t.second = -t.second; n.c = -n.c;
			F = rf.o;
			if (s.eq)
			{
				Facts a = f; if (constrain(a, s.cond) && constrain(a, n)) parts(a, fn, depth + 1);
				Facts b = f; Aff e = s.cond; e.c -= 1; if (constrain(b, e)) parts(b, fn, depth + 1);
				Facts c = f; Aff g = n; g.c -= 1; if (constrain(c, g)) parts(c, fn, depth + 1);
			}
			else
			{
				Facts a = f; if (constrain(a, s.cond)) parts(a, fn, depth + 1);
				Facts b = f; Aff g = n; g.c -= 1; if (constrain(b, g)) parts(b, fn, depth + 1);
			}
		}
		catch (SplitMod &s)
		{
			I.events = ev; rep.findings = fnd; F = rf.o;
			if (depth > 14 || f.sub.count(s.var->id)) throw Incomplete{"residue analysis too deep at " + s.where};
			i128 M = (i128)1 << s.bits;
			if (s.bits > 8)
			{
				// too many residues: the two halves of the first period and the first half of the second
				Range r = f.range.at(s.var->id);
				rep.incomplete.push_back("values of " + varName(s.var) + " above " + std::to_string((double)(M + M / 2 - 1)) + " not analysed: undecided condition at " + s.where);
				const i128 wl[] = {0, M / 2, M}, wh[] = {M / 2 - 1, M - 1, M + M / 2 - 1};
				for (int i = 0; i < 3; ++i)
				{
					Facts a = f; i128 lo = std::max(r.lo, wl[i]), hi = std::min(r.hi, wh[i]);
					if (lo > hi) continue;
					N v = mkVar(varName(s.var) + "-" + std::to_string((long long)wl[i]));
					a.range[v->id] = {lo - wl[i], hi - wl[i]}; a.sub[s.var->id] = lo == hi ? c64((u128)lo) : affPlus(v, wl[i]);
					for (auto &e : a.ge0) { Aff n; n.c = e.c; for (auto &t : e.t) { if (t.first == s.var) { n.c += t.second * wl[i]; n = affAdd(n, Aff{{{v, 1}}, 0}, t.second); } else n = affAdd(n, Aff{{t}, 0}, 1); } e = n; }
					a.resig(); parts(a, fn, depth + 1);
				}
				return;
			}
			for (i128 c = 0; c < M; ++c)
			{
				Facts a = f; Range r = f.range.at(s.var->id);
				i128 lo = -floordiv(c - r.lo, M), hi = floordiv(r.hi - c, M);
				if (lo > hi) continue;
				N v = mkVar(varName(s.var) + "/" + std::to_string((int)s.bits));
				a.range[v->id] = {lo, hi}; a.sub[s.var->id] = lo == hi ? c64((u128)(lo * M + c)) : affPlus(mulc(v, (u128)M), c);
				for (auto &e : a.ge0) { Aff n; n.c = e.c; for (auto &t : e.t) { if (t.first == s.var) { n.c += t.second * c; n = affAdd(n, Aff{{{v, M}}, 0}, t.second); } else n = affAdd(n, Aff{{t}, 0}, 1); } e = n; }
				a.resig(); parts(a, fn, depth + 1);
			}
		}
		catch (NeedLoop &l)
		{
			I.events = ev; rep.findings = fnd;
			if (!I.genLoops.insert({l.fn, l.header}).second) throw Incomplete{"loop handling does not converge in " + l.fn};
			F = rf.o;
			parts(f, fn, depth);
		}
	}
	// current value of a partition variable (constant when the facts pin it)
	N cur(N v) { auto sb = F->sub.find(v->id); if (sb != F->sub.end()) return sb->second; auto it = F->range.find(v->id); if (it != F->range.end() && it->second.lo == it->second.hi) return c64((u128)it->second.lo); return v; }
	string factStr()
	{
		string s;
		for (N v : {p, q}) { auto it = F->range.find(v->id); if (it == F->range.end()) continue; if (it->second.lo == it->second.hi) s += (v == p ? " p=" : " q=") + std::to_string((long long)it->second.lo); else s += (v == p ? " p>=" : " q>=") + std::to_string((long long)it->second.lo); }
		return s;
	}
	Facts mk(i128 plo, i128 phi, i128 qlo = 0, i128 qhi = 0, bool useQ = false)
	{
		Facts f; i128 lim = maxBytes / G - 64;
		if (phi < 0) phi = lim;
		f.range[p->id] = {plo, phi};
		if (useQ) { if (qhi < 0) qhi = lim; f.range[q->id] = {qlo, qhi}; Aff e; e.t = {{p, -1}, {q, -1}}; e.c = lim; f.ge0.push_back(e); }
		f.resig(); return f;
	}
	N bpos(N blocks, long k) { return affPlus(mulc(blocks, B), k); }

	// ---- inference of the state layout
	void infer()
	{
		Facts f = mk(0, 0);
		parts(f, [&] { inferIn(); });
		rep.count["state_words"] = words.size();
	}
	Mem S0; vector<Mem> X;       // constructed state; states after m blocks + O bytes
	Mem ext(const Mem &m) { return m; }
	void inferIn()
	{
		words.clear(); iv.clear(); X.clear(); I.chain.reset(); chainIv.clear();
		S0 = zero; ctor(S0, self);
		Mem m = S0;
		add(m, c64(0), c64(O)); X.push_back(m);
		for (int i = 1; i <= 3; ++i)
		{
			add(m, c64((i - 1) * B + O), c64(B)); X.push_back(m);
		}
		if (X[3].objs.size() != X[2].objs.size()) throw Incomplete{"adding data allocates memory"};
		std::map<pair<uint32_t, uint64_t>, CK> kind;
		auto isCopy = [&](N b, i128 &pos) { if (!b || b->op != Op::Atom || b->ak != AK::Msg || b->k != 0) return false; if (!isConst(b->a[0])) return false; pos = (i128)b->a[0]->k; return true; };
		for (uint32_t o = self; o < X[3].objs.size(); ++o)
		{
			if (!stateObj(X[3], o)) continue;
			auto &a = X[2].get(o).cells, &b = X[3].get(o).cells;
			for (size_t i = 0; i < b.size(); ++i)
			{
				CK k;
				N x = cellByte(a[i]), y = cellByte(b[i]); i128 pa, pb;
				if (!x || !y) k = CK::Junk;
				else if (isCopy(x, pa) && isCopy(y, pb)) k = pb - pa == B ? CK::Copy : CK::Junk;
				else if (a[i].n->aff && b[i].n->aff) k = a[i] == b[i] ? CK::Const : CK::Affine;
				else k = a[i] == b[i] ? CK::Const : CK::Chain;
				kind[{o, i}] = k;
			}
		}
		group(kind, X[2], X[3], S0, self, words);
		for (auto &w : words)
		{
			vector<Cell> cs(S0.get(w.obj).cells.begin() + w.off, S0.get(w.obj).cells.begin() + w.off + w.bytes);
			for (auto &c : cs) if (!c.n) throw Incomplete{"chaining value not initialised by the constructor at offset " + std::to_string(w.off)};
			iv.push_back(I.cellsToNode(cs));
		}
		kinds = kind;
		chainIv = iv;
		for (size_t i = 0; i < words.size(); ++i) if (getWord(X[0], words[i]) != iv[i]) chainIv.clear();
		// words that always hold the same value as an earlier one share its name
		alias.resize(words.size());
		for (size_t i = 0; i < words.size(); ++i)
		{
			alias[i] = i;
			for (size_t j = 0; j < i && alias[i] == i; ++j)
			{
				bool same = alias[j] == j && words[i].bytes == words[j].bytes && iv[i] == iv[j];
				for (int t = 1; t <= 3 && same; ++t) same = getWord(X[t], words[i]) == getWord(X[t], words[j]);
				if (same) alias[i] = j;
			}
		}
	}
	vector<size_t> alias;
	// group chain bytes into the words the program stores
	void group(std::map<pair<uint32_t, uint64_t>, CK> &kind, const Mem &M2, const Mem &M3, const Mem &M0, uint32_t from, vector<Word> &ws)
	{
		std::set<uint32_t> os; for (auto &kv : kind) os.insert(kv.first.first);
		for (uint32_t o : os)
		{
			auto &a = M2.get(o).cells, &b = M3.get(o).cells; auto &z = M0.get(o).cells;
			for (size_t i = 0; i < b.size();)
			{
				auto kc = kind.find({o, i});
				if (kc == kind.end() || kc->second != CK::Chain) { ++i; continue; }
				unsigned w = b[i].n->w / 8; bool ok = i + w <= b.size() && w <= 16;
				for (unsigned j = 0; j < w && ok; ++j)
				{
					unsigned sg = I.big ? w - 1 - j : j;
					ok = kind[{o, i + j}] == CK::Chain && a[i + j].n == a[i].n && b[i + j].n == b[i].n && a[i + j].sig == sg && b[i + j].sig == sg && a[i].n->w == b[i].n->w;
					ok = ok && z[i + j].n;
				}
				if (!ok) w = 1;
				ws.push_back({o, i, w}); i += w;
			}
		}
	}
	std::map<pair<uint32_t, uint64_t>, CK> kinds;
	void putWord(Mem &m, const Word &w, N v) { Obj &o = m.mut(w.obj); for (unsigned j = 0; j < w.bytes; ++j) o.cells[w.off + j] = I.makeCell(v, j, w.bytes); }
	N getWord(const Mem &m, const Word &w) { vector<Cell> cs(m.get(w.obj).cells.begin() + w.off, m.get(w.obj).cells.begin() + w.off + w.bytes); for (auto &c : cs) if (!c.n) return mkUndef(w.bytes * 8); return I.cellsToNode(cs); }
	Mem withChain(Mem m, N pos) { for (size_t i = 0; i < words.size(); ++i) putWord(m, words[i], mkAtom(AK::Chain, words[i].bytes * 8, alias[i], pos)); return m; }

	// generic state after P blocks plus O bytes
	Mem genericX(N P)
	{
		Mem m = withChain(X[3], P);
		N back = affPlus(P, -3);
		for (auto &kv : kinds)
		{
			uint32_t o = kv.first.first; uint64_t i = kv.first.second;
			if (kv.second == CK::Const || kv.second == CK::Chain) continue;
			const Cell &a = X[2].get(o).cells[i], &b = X[3].get(o).cells[i];
			Cell &c = m.mut(o).cells[i];
			if (kv.second == CK::Junk) { if (c.n) c = {freshJunk(8), 0}; continue; }
			if (kv.second == CK::Copy) { N at = cellByte(b)->a[0]; c = {mkAtom(AK::Msg, 8, 0, ::add(at, mulc(back, B))), 0}; continue; }
			if (a.sig == b.sig && a.n->w == b.n->w && b.n->w <= 64)
			{
				N d = sub(b.n, a.n);
				if (isConst(d)) { N bk = b.n->w == 64 ? back : trunc(back, b.n->w); c = {::add(b.n, mulc(bk, d->k)), b.sig}; continue; }
			}
			c = {freshJunk(8), 0};
		}
		return m;
	}
	void learnStep()
	{
		Facts f = mk(3, -1);
		I.chain.reset();
		bool got = false;
		parts(f, [&] {
			N P = cur(p);
			if (isConst(P)) return;
			Mem m = genericX(P);
			add(m, bpos(P, O), c64(B));
			vector<N> st; for (auto &w : words) st.push_back(getWord(m, w));
			if (got) { bool same = st == I.chain.step; if (!same) throw Incomplete{"block step depends on the block number in a non-uniform way"}; return; }
			I.chain.step = st; got = true;
		});
		if (!got) throw Incomplete{"no generic block step"};
		I.chain.pVar = p; I.chain.width.clear();
		for (auto &w : words) I.chain.width.push_back(w.bytes * 8);
		I.chain.maxE = G > B ? (unsigned)(G / B + 1) : 2;
		for (N s : I.chain.step) { rep.count["step_nodes"] += 1; if (s->junk || s->undef) throw Incomplete{"block step reads state that is not determined by the chaining value, the counter and the block: " + show(s, 2)}; }
	}
	N substPos(N n, N var, N by, std::unordered_map<N, N> *memo = nullptr)
	{
		Subst S;
		S.atom = [&](N a) -> N {
			if (a == var) return by;
			if ((a->ak == AK::Chain || a->ak == AK::Msg) && !a->a.empty()) return mkAtom(a->ak, a->w, a->k, S(a->a[0]));
			return a;
		};
		return S(n);
	}
	Mem substMem(const Mem &m, N var, N by)
	{
		Mem r = m; Subst S;
		S.atom = [&](N a) -> N {
			if (a == var) return by;
			if ((a->ak == AK::Chain || a->ak == AK::Msg) && !a->a.empty()) return mkAtom(a->ak, a->w, a->k, S(a->a[0]));
			return a;
		};
		for (uint32_t o = self; o < m.objs.size(); ++o)
		{
			if (!stateObj(m, o)) continue;
			bool any = false; for (auto &c : m.get(o).cells) if (c.n && !isConst(c.n)) any = true;
			if (!any) continue;
			for (auto &c : r.mut(o).cells) if (c.n && !isConst(c.n)) c.n = S(c.n);
		}
		return r;
	}
	// the step applied to the constructed state must reproduce the concrete first blocks
	void checkStepBase()
	{
		Facts f = mk(0, 0);
		parts(f, [&] {
			for (int b = 0; b < 3; ++b)
			{
				vector<N> prev; for (size_t i = 0; i < words.size(); ++i) prev.push_back(getWord(X[b], words[i]));
				Subst S; N P = c64(b);
				S.atom = [&](N a) -> N {
					if (a == p) return P;
					if (a->ak == AK::Msg) return mkAtom(AK::Msg, a->w, a->k, S(a->a[0]));
					if (a->ak == AK::Chain) return prev[(size_t)a->k];
					return a;
				};
				for (size_t i = 0; i < words.size(); ++i)
				{
					N want = S(I.chain.step[i]), got = getWord(X[b + 1], words[i]);
					if (want == got) { ++rep.count["base_steps_equal"]; continue; }
					if (cfg.has("v") && (want->w != got->w || lanesDiffer(want, got, 3, seed + 5))) { std::cerr << show(I.chain.step[i], 4) << "\nWANT " << show(want, 4) << "\nGOT " << show(got, 4) << "\n"; }
					if (want->w != got->w || lanesDiffer(want, got, 3, seed + 5) || ((hasDataCmp(want) || hasDataCmp(got)) && directed({}, want, got, seed + 5))) throw Incomplete{"block step is not uniform from the first block on (block " + std::to_string(b) + ", word " + std::to_string(i) + ")"};
					++rep.count["base_steps_equal_by_random_interpretation"];
				}
			}
		});
	}
	// fill levels to consider (all, unless restricted by the configuration)
	std::set<long> ks;
	bool wanted(long k)
	{
		if (cfg.has("ks") && ks.empty()) { std::stringstream ss(cfg.str("ks")); string t; while (std::getline(ss, t, ',')) ks.insert(std::stol(t)); }
		return ks.empty() || ks.count(k);
	}
	// ---- canonical families
	void families()
	{
		I.chain.on = true;
		I.registerChain(c64(0));
		Mem A0 = withChain(S0, c64(0));
		C.clear(); demoted.clear();
		for (long k = 0; k < B; ++k)
		{
			if (!wanted(k)) continue;
			Facts f0 = mk(0, 0);
			parts(f0, [&] { Mem m = A0; if (k) add(m, c64(0), c64(k)); C[{k, 0}] = m; });
			bool have = false;
			Facts f1 = mk(1, -1);
			if (G != B) { parts(mk(3, -1), [&] { C[{k, 1}] = genericX(cur(p)); }); continue; }
			parts(f1, [&] {
				N P = cur(p); Mem m = A0;
				add(m, c64(0), bpos(P, k));
				if (isConst(P)) { pend.push_back({k, m, P}); return; }
				if (have) { merge(k, 1, m, p, "large input"); return; }
				C[{k, 1}] = m; have = true;
			});
			if (!have) throw Incomplete{"no generic state for fill " + std::to_string(k)};
			for (auto &t : pend) merge(std::get<0>(t), 1, std::get<1>(t), std::get<2>(t), "single add of " + show(bpos(std::get<2>(t), std::get<0>(t)), 2) + " bytes");
			pend.clear();
		}
		rep.count["canonical_states"] = C.size();
		pristine = C;
	}
	vector<std::tuple<long, Mem, N>> pend;
	std::map<std::tuple<long, int, N>, pair<uint64_t, Mem>> instCache; std::map<pair<long, int>, uint64_t> canonVer;
	const Mem &inst(long k, int z, N P)
	{
		if (z == 0) return C.at({k, 0});
		if (P == p) return C.at({k, 1});
		auto key_ = std::make_tuple(k, z, P);
		auto it = instCache.find(key_);
		uint64_t v = canonVer[{k, z}];
		if (it != instCache.end() && it->second.first == v) return it->second.second;
		if (instCache.size() > 4000) instCache.clear();
		auto &e = instCache[key_]; e = {v, substMem(C.at({k, 1}), p, P)};
		return e.second;
	}
	// weaken the canonical state (k,z) so that it covers m (which is at position P); returns true if it changed
	bool merge(long k, int z, const Mem &m, N P, const string &hist)
	{
		const Mem want = inst(k, z, P);
		bool changed = false;
		Mem &can = C.at({k, z});
		if (want.objs.size() != m.objs.size()) throw Incomplete{"object graph differs between histories"};
		for (uint32_t o = self; o < m.objs.size(); ++o)
		{
			if (o == self2 || o == out) continue;
			if (stateObj(m, o) != stateObj(want, o)) throw Incomplete{"object graph differs between histories"};
			if (!stateObj(m, o)) continue;
			if (m.objs[o] == want.objs[o]) continue;
			auto &g = m.get(o).cells, &w = want.get(o).cells;
			for (size_t i = 0; i < g.size(); ++i)
			{
				if (!w[i].n || (w[i].n->op == Op::Atom && w[i].n->ak == AK::Junk)) { if (w[i].n && !g[i].n) { can.mut(o).cells[i] = Cell(); changed = true; } continue; }
				if (g[i] == w[i]) continue;
				if (g[i].n) { Cmp q = compare(cellByte(g[i]), cellByte(w[i])); if (q == Same || q == Random) { if (q == Random) ++rep.count["cells_equal_by_random_interpretation"]; continue; } }
				Cell c; if (g[i].n) c = {freshJunk(8), 0};
				demoted[{k, z}][{o, i}] = hist + " leaves " + (g[i].n ? show(cellByte(g[i]), 2) : string("nothing")) + " where one add leaves " + show(cellByte(w[i]), 2);
				can.mut(o).cells[i] = c; changed = true;
			}
		}
		if (changed) ++canonVer[{k, z}];
		return changed;
	}
	uint64_t transitions = 0, merges = 0;
	std::map<pair<long, int>, Mem> pristine;             // states after one add, before any weakening
	Mem pristineAt(long k, int z, N P) { Mem &c = pristine.at({k, z}); return z == 0 || P == p ? c : substMem(c, p, P); }
	bool differs(long k, int z, const Mem &m, N P)
	{
		const Mem &want = inst(k, z, P);
		for (uint32_t o = self; o < m.objs.size() && o < want.objs.size(); ++o)
		{
			if (o == self2 || o == out || !stateObj(m, o) || m.objs[o] == want.objs[o]) continue;
			auto &g = m.get(o).cells, &w = want.get(o).cells;
			for (size_t i = 0; i < g.size(); ++i)
			{
				if (!w[i].n || (w[i].n->op == Op::Atom && w[i].n->ak == AK::Junk) || g[i] == w[i]) continue;
				if (g[i].n) { Cmp q = compare(cellByte(g[i]), cellByte(w[i])); if (q == Same || q == Random) continue; }
				return true;
			}
		}
		return false;
	}
	bool splitDiffer(Mem a, Mem b, const string &hist)
	{
		size_t at;
		fin(a); Bytes x = arr(a); fin(b); Bytes y = arr(b);
		++rep.count["witness_histories_compared"];
		if (compareBytes(x, y, at) != Differ) return false;
		rep.add(cfg.str("main", "I01"), "split", "digest depends on how the input is divided: " + hist + " gives byte " + std::to_string(at) + " = " + show(x[at], 3) + " but one add of the same bytes gives " + show(y[at], 3));
		return true;
	}
	// a cell of the state depends on the history: look for a digest that does
	void witness(long k, long r, bool big, const Mem &m, long k2, int z2, N P2)
	{
		string hist = show(bpos(cur(p), k), 3) + " bytes then " + (big ? "n*" + std::to_string(G) + "+" : string()) + std::to_string(r) + " bytes";
		Mem one = pristineAt(k2, z2, P2);
		if (splitDiffer(m, one, hist)) return;
		N n0 = bpos(P2, k2);
		for (long r2 : std::set<long>{0, 1 % G, B - k2 - 1, B - k2, B - k2 + 1, 2 * B - k2})
		{
			if (r2 < 0) continue;
			Mem a = m, b = one;
			add(a, n0, c64(r2)); add(b, n0, c64(r2));
			if (splitDiffer(a, b, hist + " then " + std::to_string(r2) + " bytes")) return;
			N n1 = affPlus(n0, r2);
			for (long r3 : std::set<long>{0, 1, B})
			{
				Mem a2 = a, b2 = b; add(a2, n1, c64(r3)); add(b2, n1, c64(r3));
				if (splitDiffer(a2, b2, hist + " then " + std::to_string(r2) + " then " + std::to_string(r3) + " bytes")) return;
			}
		}
	}
	// fallback: explicit short histories only
	void boundedSplit(const string &because)
	{
		rep.notes.push_back(because + "; histories of two or three adds of up to three blocks compared instead");
		I.chain.on = false;
		std::set<long> tot; for (long b = 0; b <= 3; ++b) for (long x : {-2L, -1L, 0L, 1L, 2L, B / 2}) if (b * B + x >= 0) tot.insert(b * B + x);
		for (long n = 0; n < 2 * B; n += B > 32 ? 5 : 1) tot.insert(n);
		parts(mk(0, 0), [&] {
			Mem s = zero; ctor(s, self);
			for (long n : tot)
			{
				Mem one = s; add(one, c64(0), c64(n));
				std::set<long> cuts{0, 1, n / 2, n - 1, n}; for (long b = 1; b <= 3; ++b) for (long x : {-1L, 0L, 1L}) cuts.insert(b * B + x);
				for (long a : cuts)
				{
					if (a < 0 || a > n) continue;
					Mem m = s; add(m, c64(0), c64(a));
					Mem m2 = m; add(m2, c64(a), c64(n - a));
					if (rep.findings.size() < 4) splitDiffer(m2, one, std::to_string(a) + " bytes then " + std::to_string(n - a) + " bytes");
					long h = (n - a) / 2;
					add(m, c64(a), c64(h)); add(m, c64(a + h), c64(n - a - h));
					if (rep.findings.size() < 4) splitDiffer(m, one, std::to_string(a) + " bytes then " + std::to_string(h) + " bytes then " + std::to_string(n - a - h) + " bytes");
				}
			}
		});
	}
	// all transitions (k,z) + r + q blocks; returns changed targets
	void transition(long k, int z, long r, bool big, std::set<pair<long, int>> &dirty)
	{
		Facts f = z ? mk(1, -1, 1, -1, big) : mk(0, 0, 1, -1, big);
		parts(f, [&] {
			N P = cur(p), Q = big ? cur(q) : c64(0);
			Mem m = inst(k, z, P);
			N n0 = bpos(P, k), L = affPlus(mulc(Q, G), r);
			add(m, n0, L);
			long k2 = (k + r) % B; N P2 = affPlus(::add(P, mulc(Q, G / B)), (k + r) / B);
			int z2 = isConst(P2, 0) ? 0 : 1;
			++transitions;
			if (transitions <= 40000 && merges < 60 && differs(k2, z2, m, P2)) { ++merges; witness(k, r, big, m, k2, z2, P2); }
			if (merge(k2, z2, m, P2, "fill " + std::to_string(k) + " then " + (big ? "blocks plus " : "") + std::to_string(r) + " bytes")) dirty.insert({k2, z2});
		});
	}
	void closure()
	{
		std::set<pair<long, int>> dirty; vector<pair<long, int>> all;
		for (long k = 0; k < B; ++k) for (int z : {0, 1}) all.push_back({k, z});
		// quick passes to find cells whose content legitimately depends on the history
		std::set<pair<long, int>> work(all.begin(), all.end());
		for (int round = 0; round < 6 && !work.empty(); ++round)
		{
			std::set<pair<long, int>> nw;
			for (auto &s : work)
			{
				long k = s.first;
				std::set<long> rs = {0, 1 % G, G - 1, (G - k) % G, (G - k + 1) % G, (2 * G - k - 1) % G};
				if (G != B) for (long r = 0; r < G; ++r) rs.insert(r);
				for (long r : rs) for (bool bg : {false, true}) transition(k, s.second, r, bg, nw);
			}
			work = nw;
		}
		// quick: every fill level with every residue, without whole extra blocks, from the generic state
		bool full = !cfg.has("boundary");
		work = std::set<pair<long, int>>(all.begin(), all.end());
		for (int round = 0; round < 6 && !work.empty(); ++round)
		{
			std::set<pair<long, int>> nw;
			for (auto &s : work) for (long r = 0; r < G; ++r) for (bool bg : {false, true}) if (full || (!bg && (s.second == 1 || r % 8 == s.first % 8))) transition(s.first, s.second, r, bg, nw);
			work = nw;
		}
		if (!work.empty()) throw Incomplete{"state families do not stabilise"};
		rep.count["transitions"] = transitions;
	}
	// ---- digests
	struct Dig { long k; int z; Bytes d; Facts f; N P; };
	vector<Dig> digests;
	void finals(bool single)
	{
		digests.clear();
		auto one = [&](long k, int z, Mem m, N P) { fin(m); Bytes b = arr(m); digests.push_back({k, z, b, *F, P}); };
		if (single && G != B)
		{
			for (long r = 0; r < G; ++r) for (bool bg : {false, true})
			{
				Facts f = mk(0, 0, 1, -1, bg);
				parts(f, [&] { N Q = bg ? cur(q) : c64(0); Mem m = C.at({0, 0}); N L = affPlus(mulc(Q, G), r); add(m, c64(0), L); one(0, isConst(L, 0) ? 0 : 1, m, L); });
			}
		}
		else for (long k = 0; k < B; ++k) for (int z : {0, 1}) if (wanted(k))
			parts(z ? mk(1, -1) : mk(0, 0), [&] { N P = cur(p); one(k, z, inst(k, z, P), P); });
		if (I.pw == 32 && cfg.has("H")) wideFinals();
		rep.count["finalizations"] += digests.size();
	}
	// 32-bit targets: one more block after P blocks given in earlier calls, for totals that no single call can give
	void wideFinals()
	{
		struct W { bool &w; W(bool &x) : w(x) { w = true; } ~W() { w = false; } } on(wide);
		Facts f; f.range[p->id] = {3, (((i128)1 << (int)cfg.num("maxlog", 61)) - 1) / B - 64}; f.resig();
		parts(f, [&] {
			N P = cur(p); if (isConst(P)) return;
			Mem m = genericX(P), next = genericX(affPlus(P, 1));
			{
				Mem m2 = m; add(m2, bpos(P, O), c64(B));
				for (auto &kv : kinds)
				{
					if (kv.second == CK::Junk || kv.second == CK::Chain) continue;
					const Cell &a = m2.get(kv.first.first).cells[kv.first.second], &b = next.get(kv.first.first).cells[kv.first.second];
					if (!(a == b) && cellByte(a) != cellByte(b)) { rep.incomplete.push_back("state at offset " + std::to_string(kv.first.second) + " after many blocks is not the next one of its family"); break; }
					++rep.count["wide_cells_inductive"];
				}
			}
			for (long k = 0; k < B; ++k)
			{
				if (!wanted(k)) continue;
				Mem m2 = m; long n = k >= O ? k - O : B - O + k;
				if (n) add(m2, bpos(P, O), c64(n));
				fin(m2); Bytes b = arr(m2);
				digests.push_back({k, 1, b, *F, k >= O ? P : affPlus(P, 1)}); ++rep.count["wide_digests"];
			}
		});
	}
	static void chainAtoms(N n, std::set<N> &seen, std::set<size_t> &out)
	{
		if (!seen.insert(n).second) return;
		if (n->op == Op::Atom && n->ak == AK::Chain) out.insert((size_t)n->k);
		for (N x : n->a) chainAtoms(x, seen, out);
		for (auto &p : n->ps) if (p.n) chainAtoms(p.n, seen, out);
	}
	// chaining words that some digest depends on, now or after further blocks
	std::set<size_t> liveWords()
	{
		std::set<N> seen; std::set<size_t> live;
		for (auto &g : digests) for (N b : g.d) chainAtoms(b, seen, live);
		for (bool more = true; more;)
		{
			more = false; auto cur_ = live;
			for (size_t i : cur_) { auto before = live.size(); chainAtoms(I.chain.step.at(i), seen, live); more = more || live.size() != before; }
		}
		return live;
	}
	// a digest that mentions a cell whose content depends on how the input was cut
	void reportSplit()
	{
		for (auto &g : digests)
		{
			bool bad = false; for (N b : g.d) bad = bad || b->junk || b->undef;
			rep.count["digest_states_checked"]++;
			if (!bad) continue;
			string why;
			auto it = demoted.find({g.k, g.z}); if (it != demoted.end() && !it->second.empty()) why = "; state at offset " + std::to_string(it->second.begin()->first.second) + ": " + it->second.begin()->second;
			if (rep.incomplete.size() < 5) rep.incomplete.push_back("digest after " + (g.z ? std::to_string(B) + "*n+" : string()) + std::to_string(g.k) + " bytes reads state that may depend on how the input was divided" + why);
		}
	}
};

static string hexAt(const Bytes &b) { string s; for (size_t i = 0; i < b.size() && i < 4; ++i) s += show(b[i], 2) + " "; return s; }

#include "spec.inc"
#include "behave.inc"
#include "tuple.inc"
#include "analyses.inc"
