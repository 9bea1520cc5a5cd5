#include "term.h"
#include <algorithm>
#include <deque>
#include <set>
#include <unordered_set>
#include <cmath>
#include <tuple>
#include <time.h>

Facts *F = nullptr;

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

void Facts::resig()
{
	uint64_t h = 1;
	for (auto &p : range) { h = mix(h, p.first); h = mix(h, (uint64_t)p.second.lo); h = mix(h, (uint64_t)p.second.hi); }
	for (auto &g : ge0) { for (auto &t : g.t) { h = mix(h, t.first->id); h = mix(h, (uint64_t)t.second); } h = mix(h, (uint64_t)g.c); }
	sig = h;
}

// ---------------------------------------------------------------- interning
static std::deque<Node> arena;
static std::vector<N> table_(1 << 16, nullptr);
static size_t tableCount = 0;
static std::vector<std::string> varNames;

size_t nodeCount() { return arena.size(); }

static uint64_t hashOf(const Node &n)
{
	uint64_t h = mix((uint64_t)n.op * 131 + (uint64_t)n.ak * 17 + (uint64_t)n.pred, n.w);
	h = mix(h, (uint64_t)n.k); h = mix(h, (uint64_t)(n.k >> 64));
	for (N x : n.a) h = mix(h, x->id);
	for (auto c : n.co) { h = mix(h, (uint64_t)c); h = mix(h, (uint64_t)(c >> 64)); }
	for (auto &p : n.ps) { h = mix(h, p.n ? p.n->id : 0); h = mix(h, p.lo * 65536 + p.len); h = mix(h, (uint64_t)p.c); }
	h = mix(h, (uint64_t)(uintptr_t)n.tab);
	uint64_t d; memcpy(&d, &n.flo, 8); h = mix(h, d); memcpy(&d, &n.fhi, 8); h = mix(h, d);
	return h;
}
static bool same(const Node &x, const Node &y)
{
	if (x.hash != y.hash || x.op != y.op || x.ak != y.ak || x.pred != y.pred || x.w != y.w || x.k != y.k || x.a != y.a || x.co != y.co || x.tab != y.tab || x.ps.size() != y.ps.size()) return false;
	if (x.op == Op::FpConst || x.op == Op::FpOp) if (memcmp(&x.flo, &y.flo, 8) || memcmp(&x.fhi, &y.fhi, 8)) return false;
	for (size_t i = 0; i < x.ps.size(); ++i)
	{
		auto &p = x.ps[i]; auto &q = y.ps[i];
		if (p.n != q.n || p.lo != q.lo || p.len != q.len || p.c != q.c) return false;
	}
	return true;
}

static std::map<std::vector<uint64_t>, std::unique_ptr<std::vector<uint64_t>>> tabPool;
static const std::vector<uint64_t> *internTab(const std::vector<uint64_t> &v)
{
	auto it = tabPool.find(v);
	if (it == tabPool.end()) it = tabPool.emplace(v, std::make_unique<std::vector<uint64_t>>(v)).first;
	return it->second.get();
}

static N maybeTab(N n);
static bool linearTab(const std::vector<uint64_t> *tp);
static const size_t LINCAP = getenv("HASHAN_LINCAP") ? atoi(getenv("HASHAN_LINCAP")) : 64;

static N intern(Node &&n)
{
	n.hash = hashOf(n);
	size_t m = table_.size() - 1, i = n.hash & m;
	while (table_[i]) { if (same(*table_[i], n)) return table_[i]; i = (i + 1) & m; }
	// derived flags
	n.id = (uint32_t)arena.size() + 1;
	bool var = true, und = false, jk = false;
	N sup = nullptr; bool multi = false;
	auto visit = [&](N x) {
		if (!x) return;
		var = var && x->var; und = und || x->undef; jk = jk || x->junk;
		if (x->op == Op::Const) return;
		if (!x->sup) multi = true;
		else if (!sup) sup = x->sup;
		else if (sup != x->sup) multi = true;
	};
	for (N x : n.a) visit(x);
	if (n.op == Op::Atom)
	{
		var = (n.ak == AK::Var || n.ak == AK::Addr);
		und = n.ak == AK::Undef; jk = n.ak == AK::Junk;
		sup = nullptr; multi = true;
		n.lin = n.ak == AK::Msg; n.lt = 1;
	}
	else if (n.op == Op::Cat)
	{
		bool lin = true; size_t lt = 0;
		for (auto &p : n.ps)
		{
			if (!p.n) continue;
			lin = lin && p.n->lin && (p.n->op == Op::Atom || (p.n->op == Op::Xor && p.lo == 0 && p.len == p.n->w));
			lt += p.n->op == Op::Xor ? p.n->a.size() : 1;
			var = var && p.n->var; und = und || p.n->undef; jk = jk || p.n->junk;
			N s = p.n->sup;
			if (!s && !p.n->var) // byte-sized slice of an opaque wide node is a leaf of its own
			{
				unsigned b = p.lo / 8;
				if ((p.lo + p.len - 1) / 8u == b && p.n->w > 8)
				{
					if (n.ps.size() == 1 && p.lo % 8 == 0 && p.len == 8) { multi = multi; s = nullptr; /* set to self below */ }
					else { unsigned l = std::min<unsigned>(8, p.n->w - 8 * b); if (l == 8) s = slice(p.n, 8 * b, 8)->sup; }
				}
			}
			if (!s) { if (!(n.ps.size() == 1 && p.lo % 8 == 0 && p.len == 8 && !p.n->var)) multi = true; }
			else if (!sup) sup = s;
			else if (sup != s) multi = true;
		}
		n.lin = lin && lt <= LINCAP; n.lt = n.lin ? lt : 0;
	}
	else if (n.op == Op::Xor)
	{
		n.lin = n.a.size() <= LINCAP;
		for (N x : n.a) n.lin = n.lin && x->lin && (x->op == Op::Atom || (x->op == Op::Cat && x->ps.size() == 1));
		n.lt = n.lin ? n.a.size() : 0;
	}
	n.var = var; n.undef = und; n.junk = jk;
	n.sup = multi ? nullptr : sup;
	if (n.op == Op::Const) { n.aff = true; n.var = true; n.sup = nullptr; n.lin = true; }
	if (n.op == Op::Atom && (n.ak == AK::Var || n.ak == AK::Addr)) n.aff = true;
	if (n.op == Op::Lin) { n.aff = true; for (N x : n.a) n.aff = n.aff && x->op == Op::Atom && x->aff; }
	arena.push_back(std::move(n));
	Node *r = &arena.back();
	r->id = (uint32_t)arena.size();
	// leaf of its own?
	if (!r->sup && !r->var && r->w <= 8 && r->w >= 1 && r->op != Op::Const && !r->undef)
		r->sup = r;
	// re-probe: slice() above may have interned something or rehashed
	if ((tableCount + 1) * 2 > table_.size())
	{
		std::vector<N> nt(table_.size() * 2, nullptr);
		size_t mm = nt.size() - 1;
		for (N x : table_) if (x) { size_t j = x->hash & mm; while (nt[j]) j = (j + 1) & mm; nt[j] = x; }
		table_.swap(nt);
	}
	m = table_.size() - 1; i = r->hash & m;
	while (table_[i]) i = (i + 1) & m;
	table_[i] = r; ++tableCount;
	return r;
}

// ---------------------------------------------------------------- leaves
N mkConst(unsigned w, u128 v)
{
	Node n; n.op = Op::Const; n.w = w; n.k = v & maskw(w);
	return intern(std::move(n));
}
N mkAtom(AK ak, unsigned w, u128 idx, N pos)
{
	Node n; n.op = Op::Atom; n.ak = ak; n.w = w; n.k = idx; if (pos) n.a.push_back(pos);
	return intern(std::move(n));
}
N mkVar(const std::string &name)
{
	for (size_t i = 0; i < varNames.size(); ++i) if (varNames[i] == name) return mkAtom(AK::Var, 64, i);
	varNames.push_back(name);
	return mkAtom(AK::Var, 64, varNames.size() - 1);
}
const std::string &varName(N n) { return varNames[(size_t)n->k]; }
N mkAddr(unsigned w, uint32_t obj) { return mkAtom(AK::Addr, w, obj); }
static uint64_t junkCounter = 0;
N freshJunk(unsigned w) { return mkAtom(AK::Junk, w, ++junkCounter); }
N mkUndef(unsigned w) { return mkAtom(AK::Undef, w, 0); }
N mkFp(double lo, double hi) { Node n; n.op = Op::FpConst; n.w = 64; n.flo = lo; n.fhi = hi; return intern(std::move(n)); }

// ---------------------------------------------------------------- evaluation of one node
static i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; if (v >> (w - 1)) return (i128)(v | ~maskw(w)); return (i128)v; }

template <typename G>
static u128 evalOp(N n, G get)
{
	u128 m = maskw(n->w);
	switch (n->op)
	{
	case Op::Const: return n->k;
	case Op::Lin: { u128 s = n->k; for (size_t i = 0; i < n->a.size(); ++i) s += n->co[i] * get(n->a[i]); return s & m; }
	case Op::Mul: return (get(n->a[0]) * get(n->a[1])) & m;
	case Op::UDiv: { u128 b = get(n->a[1]); return b ? get(n->a[0]) / b : 0; }
	case Op::URem: { u128 b = get(n->a[1]); return b ? get(n->a[0]) % b : 0; }
	case Op::SDiv: { i128 b = sx(get(n->a[1]), n->w); return b ? (u128)(sx(get(n->a[0]), n->w) / b) & m : 0; }
	case Op::SRem: { i128 b = sx(get(n->a[1]), n->w); return b ? (u128)(sx(get(n->a[0]), n->w) % b) & m : 0; }
	case Op::And: { u128 s = n->k; for (N x : n->a) s &= get(x); return s; }
	case Op::Xor: { u128 s = n->k; for (N x : n->a) s ^= get(x); return s; }
	case Op::Cat: { u128 s = 0; unsigned pos = 0; for (auto &p : n->ps) { u128 v = p.n ? (get(p.n) >> p.lo) & maskw(p.len) : p.c; s |= v << pos; pos += p.len; } return s & m; }
	case Op::Shl: { u128 s = get(n->a[1]); return s >= n->w ? 0 : (get(n->a[0]) << (unsigned)s) & m; }
	case Op::Shr: { u128 s = get(n->a[1]); return s >= n->w ? 0 : get(n->a[0]) >> (unsigned)s; }
	case Op::Sar: { u128 s = get(n->a[1]); i128 v = sx(get(n->a[0]), n->w); return (u128)(v >> (unsigned)std::min<u128>(s, 127)) & m; }
	case Op::ICmp:
	{
		unsigned w = n->a[0]->w; u128 x = get(n->a[0]), y = get(n->a[1]); i128 sa = sx(x, w), sb = sx(y, w);
		switch (n->pred)
		{
		case Pred::EQ: return x == y; case Pred::NE: return x != y;
		case Pred::ULT: return x < y; case Pred::ULE: return x <= y; case Pred::UGT: return x > y; case Pred::UGE: return x >= y;
		case Pred::SLT: return sa < sb; case Pred::SLE: return sa <= sb; case Pred::SGT: return sa > sb; case Pred::SGE: return sa >= sb;
		}
		return 0;
	}
	case Op::Ite: return get(n->a[0]) ? get(n->a[1]) : get(n->a[2]);
	case Op::Tab: { u128 i = get(n->a[0]); return (*n->tab)[(size_t)i]; }
	case Op::Sel: { u128 i = get(n->a[0]); return get(n->a[1 + (size_t)std::min<u128>(i, n->a.size() - 2)]); }
	default: return 0;
	}
}

static const std::vector<uint64_t> &supTable(N n)
{
	if (n->supTab) return *n->supTab;
	N leaf = n->sup;
	std::vector<uint64_t> v(1u << leaf->w);
	for (size_t i = 0; i < v.size(); ++i)
	{
		std::function<u128(N)> ev = [&](N x) -> u128 {
			if (x == leaf) return i;
			if (x->op == Op::Const) return x->k;
			if (x->op == Op::Cat && leaf->op == Op::Cat && leaf->ps.size() == 1 && x->ps.size() >= 1)
			{
				// pieces may refer to the wide node the leaf is a slice of
				u128 s = 0; unsigned pos = 0;
				for (auto &p : x->ps)
				{
					u128 val;
					if (!p.n) val = p.c;
					else if (p.n == leaf->ps[0].n) val = ((u128)i >> (p.lo - leaf->ps[0].lo)) & maskw(p.len);
					else val = (ev(p.n) >> p.lo) & maskw(p.len);
					s |= val << pos; pos += p.len;
				}
				return s;
			}
			if (x->supTab && x->sup == leaf) return (*x->supTab)[i];
			return evalOp(x, ev);
		};
		v[i] = (uint64_t)ev(n);
	}
	n->supTab = internTab(v);
	return *n->supTab;
}

static N mkTabP(unsigned w, N leaf, const std::vector<uint64_t> *tp);
static N mkTabRaw(unsigned w, N leaf, const std::vector<uint64_t> &vals);

// canonicalise any computation over a single byte-sized leaf as a table of its values
static N maybeTab(N n)
{
	if (!n->sup || n->sup == n || n->op == Op::Tab || n->w > 64 || n->undef || n->lin) return n;
	if (n->op == Op::Cat)
	{
		bool plain = true;
		for (auto &p : n->ps) if (p.n && p.n->op == Op::Tab) plain = false;
		if (plain) return n;
	}
	return mkTabP(n->w, n->sup, &supTable(n));
}

static N find(Node &n)
{
	n.hash = hashOf(n);
	size_t m = table_.size() - 1, i = n.hash & m;
	while (table_[i]) { if (same(*table_[i], n)) return table_[i]; i = (i + 1) & m; }
	return nullptr;
}
static N mkTabP(unsigned w, N leaf, const std::vector<uint64_t> *tp)
{
	{ Node n; n.op = Op::Tab; n.w = w; n.a.push_back(leaf); n.tab = tp; if (N r = find(n)) return r; }
	const std::vector<uint64_t> &vals = *tp;
	bool allSame = true, ident = true;
	for (size_t i = 0; i < vals.size(); ++i) { if (vals[i] != vals[0]) allSame = false; if (vals[i] != i) ident = false; }
	if (allSame) return mkConst(w, vals[0]);
	if (ident && w >= leaf->w) return zext(leaf, w);
	{
		// detect vals[i] = ((i>>lo)&mask)<<pos
		int lo = -1; unsigned pos = 0;
		for (unsigned b = 0; b < leaf->w && lo < 0; ++b) if (vals[1u << b]) { uint64_t x = vals[1u << b]; if (x & (x - 1)) break; lo = b; pos = __builtin_ctzll(x); }
		if (lo >= 0)
		{
			unsigned len = 1;
			while (lo + len < leaf->w && pos + len < w && vals[1u << (lo + len)] == ((uint64_t)1 << (pos + len))) ++len;
			bool ok = true;
			for (size_t i = 0; ok && i < vals.size(); ++i) ok = vals[i] == (((i >> lo) & (uint64_t)maskw(len)) << pos);
			if (ok)
			{
				std::vector<Piece> ps;
				if (pos) ps.push_back({nullptr, 0, (uint16_t)pos, 0});
				ps.push_back({leaf, (uint16_t)lo, (uint16_t)len, 0});
				if (pos + len < w) ps.push_back({nullptr, 0, (uint16_t)(w - pos - len), 0});
				return cat(ps);
			}
		}
	}
	Node n; n.op = Op::Tab; n.w = w; n.a.push_back(leaf); n.tab = tp;
	N r = intern(std::move(n));
	if (!r->supTab) r->supTab = r->tab;
	return r;
}
static N mkTabRaw(unsigned w, N leaf, const std::vector<uint64_t> &vals) { return mkTabP(w, leaf, internTab(vals)); }
const std::vector<uint64_t> *tabIntern(const std::vector<uint64_t> &v) { return internTab(v); }

static bool linearTab(const std::vector<uint64_t> *tp)
{
	static std::map<const std::vector<uint64_t> *, bool> memo;
	auto it = memo.find(tp); if (it != memo.end()) return it->second;
	const auto &t = *tp; bool ok = (t.size() & (t.size() - 1)) == 0 && t.size() >= 2;
	for (size_t i = 1; ok && i < t.size(); ++i) { size_t b = i & (~i + 1); ok = b == i || t[i] == (t[i ^ b] ^ t[b] ^ t[0]); }
	return memo[tp] = ok;
}
// a table that is linear over GF(2) distributes over exclusive-or
static N distributeTab(unsigned w, N idx, const std::vector<uint64_t> *tp)
{
	if (idx->op == Op::Cat && idx->ps.size() == 1 && idx->ps[0].n->op == Op::Xor && tp->size() == ((size_t)1 << idx->w) && linearTab(tp))
	{
		N X = idx->ps[0].n; unsigned lo = idx->ps[0].lo;
		N r = mkConst(w, (*tp)[(size_t)((X->k >> lo) & maskw(idx->w))]);
		for (N x : X->a) r = xorN(r, xorN(mkTabI(w, slice(x, lo, idx->w), tp), mkConst(w, (*tp)[0])));
		return r;
	}
	if (idx->op != Op::Xor || tp->size() != ((size_t)1 << idx->w) || !linearTab(tp)) return nullptr;
	N r = mkConst(w, (*tp)[(size_t)idx->k]);
	for (N x : idx->a) r = xorN(r, xorN(mkTabI(w, x, tp), mkConst(w, (*tp)[0])));
	return r;
}
N mkTabI(unsigned w, N idx, const std::vector<uint64_t> *tp)
{
	if (N r = distributeTab(w, idx, tp)) return r;
	if (idx->sup == idx && !isConst(idx)) return mkTabP(w, idx, tp);
	return mkTab(w, idx, *tp);
}
N mkTab(unsigned w, N idx, const std::vector<uint64_t> &vals)
{
	if (isConst(idx)) return mkConst(w, vals[(size_t)idx->k]);
	if ((idx->op == Op::Xor || idx->op == Op::Cat) && vals.size() == ((size_t)1 << idx->w)) if (N r = distributeTab(w, idx, internTab(vals))) return r;
	if (idx->sup && idx->sup != idx)
	{
		const auto &t = supTable(idx);
		std::vector<uint64_t> v(t.size());
		for (size_t i = 0; i < t.size(); ++i) v[i] = t[i] < vals.size() ? vals[t[i]] : 0;
		const auto *tp = internTab(v);
		if (N r = distributeTab(w, idx->sup, tp)) return r;
		return mkTabP(w, idx->sup, tp);
	}
	if (idx->sup == idx) return mkTabRaw(w, idx, vals);
	Node n; n.op = Op::Tab; n.w = w; n.a.push_back(idx); n.tab = internTab(vals);
	return intern(std::move(n));
}
N mkSel(unsigned w, N idx, const std::vector<N> &vals)
{
	bool allc = true;
	for (N v : vals) allc = allc && isConst(v);
	if (allc && w <= 64 && (vals.size() & (vals.size() - 1)) == 0 && idx->w <= 16 && vals.size() == (1u << idx->w))
	{
		std::vector<uint64_t> t; for (N v : vals) t.push_back((uint64_t)v->k);
		return mkTab(w, idx, t);
	}
	Node n; n.op = Op::Sel; n.w = w; n.a.push_back(idx); for (N v : vals) n.a.push_back(v);
	return intern(std::move(n));
}

// ---------------------------------------------------------------- affine view
static i128 sgn(u128 c, unsigned w) { return sx(c & maskw(w), w); }

bool toAffRaw(N n, Aff &o)
{
	o.t.clear(); o.c = 0;
	if (!n->aff) return false;
	if (n->op == Op::Const) { o.c = sgn(n->k, n->w); return true; }
	if (n->op == Op::Atom) { o.t.push_back({n, 1}); return true; }
	for (size_t i = 0; i < n->a.size(); ++i) o.t.push_back({n->a[i], sgn(n->co[i], n->w)});
	o.c = sgn(n->k, n->w);
	return true;
}
static Range rangeOf(N v)
{
	if (v->ak == AK::Addr) return {(i128)1 << 16, (i128)1 << (v->w >= 64 ? 46 : 30)};
	if (F) { auto it = F->range.find(v->id); if (it != F->range.end()) return it->second; }
	return {0, (i128)maskw(v->w)};
}
Aff affAdd(const Aff &a, const Aff &b, i128 s)
{
	std::map<uint32_t, std::pair<N, i128>> m;
	for (auto &t : a.t) m[t.first->id] = t;
	for (auto &t : b.t) { auto &e = m[t.first->id]; e.first = t.first; e.second += s * t.second; }
	Aff r; r.c = a.c + s * b.c;
	for (auto &p : m) if (p.second.second != 0) r.t.push_back(p.second);
	return r;
}
i128 floordiv(i128 a, i128 b) { i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
static i128 ceildiv(i128 a, i128 b) { return -floordiv(-a, b); }

static i128 loBoundI(const Aff &a, int depth)
{
	i128 best = a.c;
	for (auto &t : a.t) { Range r = rangeOf(t.first); best += t.second > 0 ? t.second * r.lo : t.second * r.hi; }
	if (depth <= 0 || !F) return best;
	for (auto &g : F->ge0)
	{
		for (auto &gt : g.t) for (auto &t : a.t)
			if (gt.first == t.first && ((gt.second > 0) == (t.second > 0)))
			{
				// a*|gc| - |ac|*g  eliminates the variable
				i128 gc = gt.second > 0 ? gt.second : -gt.second, ac = t.second > 0 ? t.second : -t.second;
				Aff x; x.c = a.c * gc; for (auto &u : a.t) x.t.push_back({u.first, u.second * gc});
				Aff e = affAdd(x, g, -ac);
				i128 b = ceildiv(loBoundI(e, depth - 1), gc);
				if (b > best) best = b;
			}
	}
	return best;
}
i128 loBound(const Aff &a, int depth) { return loBoundI(a, depth > 2 ? 2 : depth); }
i128 hiBound(const Aff &a, int depth)
{
	Aff n; n.c = -a.c; for (auto &t : a.t) n.t.push_back({t.first, -t.second});
	return -loBound(n, depth);
}
bool toAff(N n, Aff &o)
{
	if (!toAffRaw(n, o)) return false;
	if (n->op == Op::Const) { o.c = (i128)n->k; return n->w < 127; }
	if (n->w >= 127) return false;
	i128 l = loBound(o), h = hiBound(o), M = (i128)1 << n->w;
	if (l >= 0 && h < M) return true;
	i128 k = floordiv(l, M);        // the whole range lies in another period
	if (k != floordiv(h, M) || k > 1024 || k < -1024) return false;
	o.c -= k * M; return true;
}
static bool toAffS(N n, Aff &o)
{
	if (!toAffRaw(n, o)) return false;
	if (n->op == Op::Const) return true;
	if (n->w >= 127) return false;
	return loBound(o) >= -((i128)1 << (n->w - 1)) && hiBound(o) < ((i128)1 << (n->w - 1));
}

static N linFinish(std::vector<std::pair<N, u128>> &t, u128 c, unsigned w);

N fromAff(const Aff &a, unsigned w)
{
	std::vector<std::pair<N, u128>> t;
	for (auto &p : a.t) t.push_back({p.first, (u128)p.second & maskw(w)});
	return linFinish(t, (u128)a.c & maskw(w), w);
}
N affPlus(N a, i128 c) { return add(a, mkConst(a->w, (u128)c)); }

u128 maxVal(N n)
{
	u128 m = maskw(n->w);
	if (n->op == Op::Const) return n->k;
	if (n->aff) { Aff a; if (toAff(n, a)) { i128 h = hiBound(a); if ((u128)h < m) return (u128)h; } return m; }
	if (n->op == Op::Cat)
	{
		u128 r = 0; unsigned pos = 0;
		for (auto &p : n->ps)
		{
			u128 v = p.n ? maskw(p.len) : p.c;
			if (p.n && p.lo == 0 && p.len == p.n->w && p.n->op != Op::Cat) v = maxVal(p.n);
			r |= v << pos; pos += p.len;
		}
		return r;
	}
	if (n->op == Op::Tab) { uint64_t x = 0; for (auto v : *n->tab) x = std::max(x, v); return x; }
	if (n->op == Op::Xor) { u128 r = n->k; for (N x : n->a) r |= maxVal(x); for (unsigned b = 1; b < 128; b *= 2) r |= r >> b; return r; }
	if (n->op == Op::And) { u128 r = n->k; for (N x : n->a) { u128 v = maxVal(x); if (v < r) r = v; } return r; }
	if (n->op == Op::Ite) { u128 a = maxVal(n->a[1]), b = maxVal(n->a[2]); return a > b ? a : b; }
	if (n->op == Op::URem && isConst(n->a[1]) && n->a[1]->k) return n->a[1]->k - 1;
	return m;
}

// ---------------------------------------------------------------- linear sums
static void linAcc(std::vector<std::pair<N, u128>> &t, u128 &c, N n, u128 f, unsigned w)
{
	u128 m = maskw(w);
	if (n->op == Op::Const) { c = (c + f * n->k) & m; return; }
	if (n->op == Op::Lin && n->w == w)
	{
		c = (c + f * n->k) & m;
		for (size_t i = 0; i < n->a.size(); ++i) t.push_back({n->a[i], (f * n->co[i]) & m});
		return;
	}
	if (n->op == Op::Cat && n->ps.size() == 2 && !n->ps[0].n && n->ps[0].c == 0 && n->ps[1].n && n->ps[1].lo == 0 && n->ps[1].n->w == w)
	{
		linAcc(t, c, n->ps[1].n, (f << n->ps[0].len) & m, w);
		return;
	}
	t.push_back({n, f & m});
}

static bool constBits(N n, u128 &mask, u128 &val)   // bits known constant (by structure)
{
	mask = val = 0;
	if (n->op == Op::Const) { mask = maskw(n->w); val = n->k; return true; }
	if (n->op != Op::Cat) return false;
	unsigned pos = 0;
	for (auto &p : n->ps) { if (!p.n) { mask |= maskw(p.len) << pos; val |= p.c << pos; } pos += p.len; }
	return mask != 0;
}

// merge values whose non-zero bits do not overlap
static N disjointMerge(const std::vector<N> &v, u128 c, unsigned w, bool &ok)
{
	ok = false;
	std::vector<u128> nz; u128 all = c;
	for (N x : v)
	{
		u128 m, val; constBits(x, m, val);
		u128 z = (~m | val) & maskw(w);           // possibly non-zero bits
		if (all & z) return nullptr;
		all |= z; nz.push_back(z);
	}
	ok = true;
	// walk runs by owner
	std::vector<Piece> ps;
	unsigned pos = 0;
	while (pos < w)
	{
		int own = -1;
		for (size_t i = 0; i < v.size(); ++i) if ((nz[i] >> pos) & 1) own = (int)i;
		unsigned e = pos + 1;
		auto ownerAt = [&](unsigned b) { for (size_t i = 0; i < v.size(); ++i) if ((nz[i] >> b) & 1) return (int)i; return -1; };
		while (e < w && ownerAt(e) == own) ++e;
		if (own < 0) ps.push_back({nullptr, 0, (uint16_t)(e - pos), (c >> pos) & maskw(e - pos)});
		else ps.push_back({v[own], (uint16_t)pos, (uint16_t)(e - pos), 0});
		pos = e;
	}
	return cat(ps);
}

static N linFinish(std::vector<std::pair<N, u128>> &t, u128 c, unsigned w)
{
	u128 m = maskw(w);
	std::sort(t.begin(), t.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
	size_t o = 0;
	for (size_t i = 0; i < t.size();)
	{
		N n = t[i].first; u128 s = 0;
		while (i < t.size() && t[i].first == n) s += t[i++].second;
		s &= m;
		if (s) t[o++] = {n, s};
	}
	t.resize(o);
	if (t.empty()) return mkConst(w, c);
	bool aff = true;
	for (auto &p : t) aff = aff && p.first->op == Op::Atom && p.first->aff;
	if (!aff && w < 64 && (t.size() > 1 || c || t[0].second != 1))
	{
		// sums of low parts of affine values: one low part of the affine sum
		Aff e; e.c = (i128)c; bool ok = true;
		for (auto &p : t)
		{
			N x = p.first; Aff y; i128 f = sgn(p.second, w);
			if (x->op == Op::Atom && x->aff) { e = affAdd(e, Aff{{{x, 1}}, 0}, f); continue; }
			if (x->op != Op::Cat || !x->var || x->w != w) { ok = false; break; }
			const Piece &hi = x->ps.back(); unsigned s = w - hi.len;
			if (x->ps.size() > 2 || (x->ps.size() == 2 && x->ps[0].n) || !hi.n || hi.lo || !hi.n->aff || hi.n->w != 64 || !toAffRaw(hi.n, y)) { ok = false; break; }
			e = affAdd(e, y, f * ((i128)1 << s)); if (x->ps.size() == 2) e.c += f * (i128)x->ps[0].c;
		}
		if (ok) { for (auto &p : e.t) p.second &= (i128)m; e.c &= (i128)m; return slice(fromAff(e, 64), 0, w); }
	}
	if (t.size() == 1 && c == 0)
	{
		if (t[0].second == 1 && t[0].first->w == w) return t[0].first;
		if (!aff && t[0].first->w == w && (t[0].second & (t[0].second - 1)) == 0)
		{
			unsigned s = 0; while (!((t[0].second >> s) & 1)) ++s;
			return cat({{nullptr, 0, (uint16_t)s, 0}, {t[0].first, 0, (uint16_t)(w - s), 0}});
		}
	}
	if (!aff && t.size() <= 16)
	{
		bool cand = true;
		for (auto &p : t) if (!(p.second == 1 && p.first->op == Op::Cat && p.first->w == w)) { cand = false; break; }
		if (cand)
		{
			std::vector<N> v; for (auto &p : t) v.push_back(p.first);
			bool ok; N r = disjointMerge(v, c, w, ok);
			if (ok) return r;
		}
	}
	Node n; n.op = Op::Lin; n.w = w; n.k = c;
	for (auto &p : t) { n.a.push_back(p.first); n.co.push_back(p.second); }
	return maybeTab(intern(std::move(n)));
}

N add(N a, N b)
{
	if (a->op == Op::Const && b->op == Op::Const) return mkConst(a->w, a->k + b->k);
	if (isConst(a, 0)) return b;
	if (isConst(b, 0)) return a;
	std::vector<std::pair<N, u128>> t; u128 c = 0;
	linAcc(t, c, a, 1, a->w); linAcc(t, c, b, 1, a->w);
	return linFinish(t, c, a->w);
}
N sub(N a, N b)
{
	if (a == b) return mkConst(a->w, 0);
	std::vector<std::pair<N, u128>> t; u128 c = 0;
	linAcc(t, c, a, 1, a->w); linAcc(t, c, b, maskw(a->w), a->w);
	return linFinish(t, c, a->w);
}
N mulc(N a, u128 f)
{
	std::vector<std::pair<N, u128>> t; u128 c = 0;
	linAcc(t, c, a, f & maskw(a->w), a->w);
	return linFinish(t, c, a->w);
}
N neg(N a) { return mulc(a, maskw(a->w)); }
N mul(N a, N b)
{
	if (isConst(a)) return mulc(b, a->k);
	if (isConst(b)) return mulc(a, b->k);
	if (a->id > b->id) std::swap(a, b);
	Node n; n.op = Op::Mul; n.w = a->w; n.a = {a, b};
	return maybeTab(intern(std::move(n)));
}

static bool affDivMod(N a, u128 d, N &q, N &r)
{
	Aff x;
	if (d == 0 || d >> 100 || !toAff(a, x)) return false;
	i128 D = (i128)d;
	Aff Q, R;
	for (auto &t : x.t)
	{
		i128 cq = floordiv(t.second, D), cr = t.second - cq * D;
		// negative or non-divisible coefficients stay whole in the remainder
		if (cr == 0) Q.t.push_back({t.first, cq}); else R.t.push_back(t);
	}
	Q.c = floordiv(x.c, D); R.c = x.c - Q.c * D;
	i128 lo = loBound(R), hi = hiBound(R);
	i128 s = floordiv(lo, D);
	if (floordiv(hi, D) != s) return false;
	Q.c += s; R.c -= s * D;
	q = fromAff(Q, a->w); r = fromAff(R, a->w);
	return true;
}
static N binOpaque(Op op, N a, N b) { Node n; n.op = op; n.w = a->w; n.a = {a, b}; return maybeTab(intern(std::move(n))); }

N udivN(N a, N b)
{
	if (isConst(a) && isConst(b) && b->k) return mkConst(a->w, a->k / b->k);
	if (isConst(b))
	{
		if (b->k == 1) return a;
		N q, r; if (a->aff && affDivMod(a, b->k, q, r)) return q;
		if (b->k && (b->k & (b->k - 1)) == 0) { unsigned s = 0; while (!((b->k >> s) & 1)) ++s; return lshrN(a, mkConst(a->w, s)); }
		if (maxVal(a) < b->k) return mkConst(a->w, 0);
	}
	return binOpaque(Op::UDiv, a, b);
}
N uremN(N a, N b)
{
	if (isConst(a) && isConst(b) && b->k) return mkConst(a->w, a->k % b->k);
	if (isConst(b))
	{
		if (b->k == 1) return mkConst(a->w, 0);
		N q, r; if (a->aff && affDivMod(a, b->k, q, r)) return r;
		if (b->k && (b->k & (b->k - 1)) == 0) return andN(a, mkConst(a->w, b->k - 1));
		if (maxVal(a) < b->k) return a;
	}
	return binOpaque(Op::URem, a, b);
}
static bool nonNeg(N a) { return (maxVal(a) >> (a->w - 1)) == 0; }
N sdivN(N a, N b)
{
	if (nonNeg(a) && nonNeg(b)) return udivN(a, b);
	if (isConst(a) && isConst(b) && b->k) return mkConst(a->w, (u128)(sx(a->k, a->w) / sx(b->k, b->w)));
	return binOpaque(Op::SDiv, a, b);
}
N sremN(N a, N b)
{
	if (nonNeg(a) && nonNeg(b)) return uremN(a, b);
	if (isConst(a) && isConst(b) && b->k) return mkConst(a->w, (u128)(sx(a->k, a->w) % sx(b->k, b->w)));
	return binOpaque(Op::SRem, a, b);
}

// ---------------------------------------------------------------- bit-level
// ---- exclusive-ors of slices of atoms: runs of bits, each the exclusive-or of equally shifted slices
struct Run { uint16_t len; std::vector<std::pair<N, uint16_t>> t; u128 c; };
static void runsOf(N n, std::vector<Run> &out)
{
	if (n->op == Op::Const) { out.push_back({n->w, {}, n->k}); return; }
	if (n->op == Op::Atom) { out.push_back({n->w, {{n, 0}}, 0}); return; }
	if (n->op == Op::Xor)
	{
		Run r{n->w, {}, n->k};
		for (N x : n->a) { if (x->op == Op::Atom) r.t.push_back({x, 0}); else r.t.push_back({x->ps[0].n, x->ps[0].lo}); }
		std::sort(r.t.begin(), r.t.end(), [](auto &x, auto &y) { return x.first->id != y.first->id ? x.first->id < y.first->id : x.second < y.second; });
		out.push_back(std::move(r)); return;
	}
	for (auto &p : n->ps)
	{
		if (!p.n) out.push_back({p.len, {}, p.c});
		else if (p.n->op == Op::Atom) out.push_back({p.len, {{p.n, p.lo}}, 0});
		else runsOf(p.n, out);
	}
}
static void cutRuns(N n, unsigned lo, unsigned len, std::vector<Run> &out)
{
	std::vector<Run> rs; runsOf(n, rs);
	unsigned pos = 0;
	for (auto &r : rs)
	{
		unsigned a = std::max<unsigned>(pos, lo), b = std::min<unsigned>(pos + r.len, lo + len);
		if (a < b)
		{
			unsigned d = a - pos; pos += r.len;
			r.len = b - a; r.c = (r.c >> d) & maskw(r.len); for (auto &q : r.t) q.second += d;
			out.push_back(std::move(r));
		}
		else pos += r.len;
	}
}
static void xorRuns(std::vector<Run> &a, std::vector<Run> &b)
{
	std::vector<Run> o; size_t i = 0, j = 0; unsigned di = 0, dj = 0;
	while (i < a.size())
	{
		unsigned len = std::min(a[i].len - di, b[j].len - dj);
		Run r; r.len = len; r.c = ((a[i].c >> di) ^ (b[j].c >> dj)) & maskw(len);
		auto &x = a[i].t; auto &y = b[j].t; size_t u = 0, v = 0;
		r.t.reserve(x.size() + y.size());
		while (u < x.size() || v < y.size())
		{
			if (v == y.size()) { r.t.push_back({x[u].first, (uint16_t)(x[u].second + di)}); ++u; continue; }
			if (u == x.size()) { r.t.push_back({y[v].first, (uint16_t)(y[v].second + dj)}); ++v; continue; }
			unsigned p = x[u].second + di, q = y[v].second + dj; uint32_t pi = x[u].first->id, qi = y[v].first->id;
			if (pi == qi && p == q) { ++u; ++v; }
			else if (pi != qi ? pi < qi : p < q) { r.t.push_back({x[u].first, (uint16_t)p}); ++u; }
			else { r.t.push_back({y[v].first, (uint16_t)q}); ++v; }
		}
		o.push_back(std::move(r));
		di += len; dj += len;
		if (di == a[i].len) { ++i; di = 0; }
		if (dj == b[j].len) { ++j; dj = 0; }
	}
	a.swap(o);
}
static N linSlice(N leaf, unsigned lo, unsigned len)
{
	if (lo == 0 && len == leaf->w) return leaf;
	Node n; n.op = Op::Cat; n.w = len; n.ps.push_back({leaf, (uint16_t)lo, (uint16_t)len, 0});
	return intern(std::move(n));
}
static N buildRuns(std::vector<Run> &rs)
{
	size_t o = 0;
	for (size_t i = 1; i < rs.size(); ++i)
	{
		Run &a = rs[o], &b = rs[i];
		bool m = a.t.size() == b.t.size();
		for (size_t k = 0; m && k < a.t.size(); ++k) m = a.t[k].first == b.t[k].first && a.t[k].second + a.len == b.t[k].second;
		if (m) { a.c |= b.c << a.len; a.len += b.len; }
		else { ++o; if (o != i) rs[o] = std::move(rs[i]); }
	}
	rs.resize(o + 1);
	Node n; n.op = Op::Cat; n.w = 0;
	for (auto &r : rs)
	{
		n.w += r.len;
		if (r.t.empty()) { n.ps.push_back({nullptr, 0, r.len, r.c}); continue; }
		if (r.t.size() == 1 && r.c == 0) { n.ps.push_back({r.t[0].first, r.t[0].second, r.len, 0}); continue; }
		Node x; x.op = Op::Xor; x.w = r.len; x.k = r.c;
		for (auto &q : r.t) x.a.push_back(linSlice(q.first, q.second, r.len));
		n.ps.push_back({intern(std::move(x)), 0, r.len, 0});
	}
	if (n.ps.size() == 1)
	{
		auto &p = n.ps[0];
		if (!p.n) return mkConst(n.w, p.c);
		if (p.lo == 0 && p.len == p.n->w) return p.n;
	}
	return intern(std::move(n));
}
// the terms of a linear value that lie inside one byte-sized slice of an atom
static void splitLeaf(const std::vector<Run> &rs, N atom, unsigned lo, unsigned len, std::vector<Run> &in, std::vector<Run> &rest)
{
	for (auto &r0 : rs)
	{
		// cut where a term enters or leaves the slice
		std::set<unsigned> cuts{0, r0.len};
		for (auto &q : r0.t) if (q.first == atom) for (unsigned e : {lo, lo + len}) if (e > q.second && e < q.second + (unsigned)r0.len) cuts.insert(e - q.second);
		for (auto it = cuts.begin(); std::next(it) != cuts.end(); ++it)
		{
			unsigned d = *it, l = *std::next(it) - d; Run a{(uint16_t)l, {}, 0}, b{(uint16_t)l, {}, (r0.c >> d) & maskw(l)};
			for (auto &q : r0.t)
			{
				unsigned p = q.second + d;
				if (q.first == atom && p >= lo && p + l <= lo + len) a.t.push_back({q.first, (uint16_t)p}); else b.t.push_back({q.first, (uint16_t)p});
			}
			in.push_back(a); rest.push_back(b);
		}
	}
}

N cat(std::vector<Piece> in)
{
	unsigned w = 0; for (auto &p : in) w += p.len;
	std::vector<Piece> ps;
	std::function<void(const Piece &)> push = [&](const Piece &p0) {
		Piece p = p0;
		if (p.len == 0) return;
		if (p.n && p.n->op == Op::Const) { p.c = (p.n->k >> p.lo) & maskw(p.len); p.n = nullptr; p.lo = 0; }
		if (p.n && p.n->op == Op::Cat)
		{
			unsigned pos = 0;
			for (auto &q : p.n->ps)
			{
				unsigned lo = std::max<unsigned>(pos, p.lo), hi = std::min<unsigned>(pos + q.len, p.lo + p.len);
				if (lo < hi)
				{
					if (q.n) push({q.n, (uint16_t)(q.lo + lo - pos), (uint16_t)(hi - lo), 0});
					else push({nullptr, 0, (uint16_t)(hi - lo), (q.c >> (lo - pos)) & maskw(hi - lo)});
				}
				pos += q.len;
			}
			return;
		}
		if (p.n && p.n->op == Op::Lin && p.n->aff)
		{
			// multiples of a power of two plus a constant: the low bits are known, the rest has no carry
			unsigned t = 128;
			for (u128 c : p.n->co) { unsigned z = 0; while (z < 127 && !((c >> z) & 1)) ++z; t = std::min(t, z); }
			if (t > 0 && t < p.n->w)
			{
				if (p.lo < t) { unsigned l = std::min<unsigned>(t - p.lo, p.len); push({nullptr, 0, (uint16_t)l, (p.n->k >> p.lo) & maskw(l)}); p.lo += l; p.len -= l; }
				if (p.len == 0) return;
				Aff y; toAffRaw(p.n, y); Aff z; z.c = floordiv(y.c, (i128)1 << t); for (auto &q : y.t) z.t.push_back({q.first, q.second / ((i128)1 << t)});
				push({fromAff(z, p.n->w), (uint16_t)(p.lo - t), p.len, 0});
				return;
			}
		}
		if (!p.n) { p.c &= maskw(p.len); p.lo = 0; }
		if (!ps.empty())
		{
			Piece &b = ps.back();
			if (!b.n && !p.n) { b.c |= p.c << b.len; b.len += p.len; return; }
			if (b.n && b.n == p.n && b.lo + b.len == p.lo) { b.len += p.len; return; }
		}
		ps.push_back(p);
	};
	for (auto &p : in) push(p);
	if (ps.empty()) throw std::logic_error("empty cat");
	if (ps.size() == 1)
	{
		if (!ps[0].n) return mkConst(w, ps[0].c);
		if (ps[0].lo == 0 && ps[0].len == ps[0].n->w) return ps[0].n;
	}
	// affine recombination: zeros below the low part of an affine value; zero-extension of an exact affine value
	if (ps.size() == 2 && !ps[0].n && ps[1].n && ps[1].n->aff && ps[1].lo == 0 && ps[1].n->w == w && ps[1].len == w - ps[0].len)
		return add(mulc(ps[1].n, (u128)1 << ps[0].len), mkConst(w, ps[0].c));
	if (ps.size() == 2 && ps[0].n && ps[0].n->aff && ps[0].lo == 0 && ps[0].len == ps[0].n->w && !ps[1].n && ps[1].c == 0)
	{
		Aff x; if (toAff(ps[0].n, x)) return fromAff(x, w);
	}
	// slices and shifts of an exclusive-or of linear table lookups
	{
		N X = nullptr; bool ok = true;
		for (auto &p : ps) if (p.n) { if (!X) X = p.n; else if (X != p.n) ok = false; } else if (p.c) ok = false;
		if (ok && X && X->w == w && ps.size() == 2 && X->op == Op::Xor && !X->lin && (ps[0].n ? ps[0].lo != 0 : true))
		{
			bool tab = false;
			for (N x : X->a) { if (x->op == Op::Tab) { tab = true; if (!linearTab(x->tab)) ok = false; } else if (x->op != Op::Cat && x->op != Op::Atom && !x->lin) ok = false; }
			if (ok && tab)
			{
				N r = nullptr;
				for (size_t i = 0; i <= X->a.size(); ++i)
				{
					N arg = i < X->a.size() ? X->a[i] : mkConst(X->w, X->k);
					std::vector<Piece> q; for (auto &p : ps) q.push_back(p.n ? Piece{arg, p.lo, p.len, 0} : p);
					N v = cat(q); r = r ? xorN(r, v) : v;
				}
				return r;
			}
		}
	}
	{
		bool lin = true, any = false; size_t lt = 0;
		for (auto &p : ps) if (p.n) { if (!p.n->lin) lin = false; else if (p.n->op == Op::Xor) { any = true; lt += p.n->lt; } else ++lt; }
		if (lin && any && lt <= LINCAP)
		{
			std::vector<Run> rs;
			for (auto &p : ps) { if (p.n) cutRuns(p.n, p.lo, p.len, rs); else rs.push_back({p.len, {}, p.c}); }
			return buildRuns(rs);
		}
	}
	Node n; n.op = Op::Cat; n.w = w; n.ps = std::move(ps);
	return maybeTab(intern(std::move(n)));
}
N catNodes(const std::vector<N> &v)
{
	std::vector<Piece> ps;
	for (N x : v) ps.push_back({x, 0, x->w, 0});
	return cat(ps);
}
N slice(N a, unsigned lo, unsigned len)
{
	if (lo == 0 && len == a->w) return a;
	if (a->op == Op::Const) return mkConst(len, a->k >> lo);
	if (a->aff)
	{
		Aff x;
		if (toAff(a, x))
		{
			if (lo == 0 && hiBound(x) < ((i128)1 << std::min(len, 120u))) return fromAff(x, len);
			if (lo < 120 && hiBound(x) < ((i128)1 << lo)) return mkConst(len, 0);
			if (lo > 0 && lo < 120)
			{
				N q, r;
				if (affDivMod(a, (u128)1 << lo, q, r)) return slice(q, 0, len);
			}
		}
		if (lo == 0 && len < a->w)
		{
			// modulo reduction of an affine value: drop multiples of 2^len
			Aff y; toAffRaw(a, y);
			bool ch = false; Aff z; z.c = (i128)((u128)y.c & maskw(len)); if (z.c != y.c) ch = true;
			for (auto &t : y.t) { u128 c = (u128)t.second & maskw(len); if (!c) { ch = true; continue; } z.t.push_back({t.first, (i128)c}); if ((i128)c != t.second) ch = true; }
			if (ch) { N b = fromAff(z, a->w); if (b != a) return slice(b, 0, len); }
		}
		// take out a common power of two
		if (a->op == Op::Lin)
		{
			unsigned s = 128;
			auto tz = [](u128 v) { unsigned i = 0; if (!v) return 128u; while (!((v >> i) & 1)) ++i; return i; };
			s = tz(a->k); for (auto c : a->co) s = std::min(s, tz(c));
			if (s > 0 && s < 128)
			{
				Aff y; toAffRaw(a, y);
				Aff z; z.c = y.c >> s; for (auto &t : y.t) z.t.push_back({t.first, t.second >> s});
				N L = fromAff(z, a->w);
				if (lo >= s) { if (lo - s + len <= a->w - s) return slice(L, lo - s, len); }
				else if (len <= s - lo) return mkConst(len, 0);
				else { N h = slice(L, 0, len - (s - lo)); return cat({{nullptr, 0, (uint16_t)(s - lo), 0}, {h, 0, (uint16_t)h->w, 0}}); }
			}
		}
	}
	if (a->op == Op::Lin && lo == 0 && !a->aff)
	{
		bool small = true;
		for (N x : a->a) if (maxVal(x) > maskw(len)) { small = false; break; }
		if (small)
		{
			std::vector<std::pair<N, u128>> t; u128 c = a->k & maskw(len);
			for (size_t i = 0; i < a->a.size(); ++i) linAcc(t, c, slice(a->a[i], 0, len), a->co[i] & maskw(len), len);
			return linFinish(t, c, len);
		}
	}
	return cat({{a, (uint16_t)lo, (uint16_t)len, 0}});
}
N zext(N a, unsigned w)
{
	if (a->w == w) return a;
	if (a->aff) { Aff x; if (toAff(a, x)) return fromAff(x, w); }
	return cat({{a, 0, a->w, 0}, {nullptr, 0, (uint16_t)(w - a->w), 0}});
}
N trunc(N a, unsigned w) { return slice(a, 0, w); }
N sext(N a, unsigned w)
{
	if (a->w == w) return a;
	if (isConst(a)) return mkConst(w, (u128)sx(a->k, a->w));
	if (nonNeg(a)) return zext(a, w);
	if (a->aff) { Aff x; if (toAffS(a, x)) return fromAff(x, w); }
	u128 s = (u128)1 << (a->w - 1);
	return sub(xorN(zext(a, w), mkConst(w, s)), mkConst(w, s));
}
static bool constAmt(N s, unsigned w, unsigned &o) { if (s->op != Op::Const || s->k >= w) return false; o = (unsigned)s->k; return true; }
N shlN(N a, N s)
{
	unsigned k;
	if (constAmt(s, a->w, k))
	{
		if (!k) return a;
		if (a->aff) return mulc(a, (u128)1 << k);
		return cat({{nullptr, 0, (uint16_t)k, 0}, {a, 0, (uint16_t)(a->w - k), 0}});
	}
	return binOpaque(Op::Shl, a, s);
}
N lshrN(N a, N s)
{
	unsigned k;
	if (constAmt(s, a->w, k))
	{
		if (!k) return a;
		if (a->aff && !isConst(a)) { N q, r; if (affDivMod(a, (u128)1 << k, q, r)) return q; return zext(slice(a, k, a->w - k), a->w); }
		return cat({{a, (uint16_t)k, (uint16_t)(a->w - k), 0}, {nullptr, 0, (uint16_t)k, 0}});
	}
	return binOpaque(Op::Shr, a, s);
}
N ashrN(N a, N s)
{
	unsigned k;
	if (constAmt(s, a->w, k)) { if (!k) return a; if (nonNeg(a)) return lshrN(a, s); return sext(slice(a, k, a->w - k), a->w); }
	return binOpaque(Op::Sar, a, s);
}

static N xorFinish(std::vector<N> &v, u128 k, unsigned w)
{
	std::sort(v.begin(), v.end(), [](N x, N y) { return x->id < y->id; });
	size_t o = 0;
	for (size_t i = 0; i < v.size(); ++i) { if (i + 1 < v.size() && v[i] == v[i + 1]) { ++i; continue; } v[o++] = v[i]; }
	v.resize(o);
	if (v.empty()) return mkConst(w, k);
	if (v.size() == 1 && k == 0) return v[0];
	// all linear operands become one
	{
		size_t lt = 0, cnt = 0; for (N x : v) if (x->lin) { lt += x->lt; ++cnt; }
		if (cnt && lt <= LINCAP && (cnt == v.size() || cnt > 1 || k || true))
		{
			std::vector<Run> acc; bool first = true; std::vector<N> nl;
			for (N x : v)
			{
				if (!x->lin) { nl.push_back(x); continue; }
				if (first) { runsOf(x, acc); first = false; continue; }
				std::vector<Run> b; runsOf(x, b); xorRuns(acc, b);
			}
			if (nl.empty())
			{
				unsigned pos = 0; for (auto &r : acc) { r.c ^= (k >> pos) & maskw(r.len); pos += r.len; }
				return buildRuns(acc);
			}
			unsigned pos = 0; for (auto &r : acc) { k ^= r.c << pos; r.c = 0; pos += r.len; }
			// terms over a byte that a table also depends on belong to that table
			bool moved = false;
			if (w <= 64) for (N &x : nl)
			{
				N s = x->sup; if (!s) continue;
				N atom = s; unsigned lo = 0;
				if (s->op == Op::Cat && s->ps.size() == 1 && s->ps[0].n && s->ps[0].n->op == Op::Atom) { atom = s->ps[0].n; lo = s->ps[0].lo; }
				if (atom->op != Op::Atom || x == s) continue;
				bool has = false; for (auto &r : acc) for (auto &q : r.t) if (q.first == atom && q.second < lo + s->w && lo < q.second + (unsigned)r.len) has = true;
				if (!has) continue;
				std::vector<Run> a, b; splitLeaf(acc, atom, lo, s->w, a, b); acc.swap(b);
				N la = buildRuns(a);
				if (isConst(la)) continue;
				Node t; t.op = Op::Xor; t.w = w; t.a = {la, x}; if (t.a[0]->id > t.a[1]->id) std::swap(t.a[0], t.a[1]);
				x = maybeTab(intern(std::move(t))); moved = true;
			}
			N L = buildRuns(acc);
			v = nl; if (!isConst(L)) v.push_back(L); else k ^= L->k;
			if (moved)
			{
				std::vector<N> f; u128 kk = k;
				for (N x : v) { if (x->op == Op::Const) kk ^= x->k; else if (x->op == Op::Xor && !x->lin) { kk ^= x->k; f.insert(f.end(), x->a.begin(), x->a.end()); } else f.push_back(x); }
				return xorFinish(f, kk, w);
			}
			std::sort(v.begin(), v.end(), [](N x, N y) { return x->id < y->id; });
			if (v.size() == 1 && k == 0) return v[0];
		}
	}
	// split off runs where every operand is constant
	u128 all = maskw(w);
	for (N x : v) { u128 m, val; constBits(x, m, val); all &= m; if (!all) break; }
	if (all)
	{
		std::vector<Piece> ps; unsigned pos = 0;
		while (pos < w)
		{
			bool c = (all >> pos) & 1; unsigned e = pos + 1;
			while (e < w && (((all >> e) & 1) != 0) == c) ++e;
			unsigned len = e - pos;
			if (c)
			{
				u128 s = k >> pos;
				for (N x : v) { u128 m, val; constBits(x, m, val); s ^= val >> pos; }
				ps.push_back({nullptr, 0, (uint16_t)len, s & maskw(len)});
			}
			else
			{
				N r = mkConst(len, k >> pos);
				for (N x : v) r = xorN(r, slice(x, pos, len));
				ps.push_back({r, 0, (uint16_t)len, 0});
			}
			pos = e;
		}
		return cat(ps);
	}
	// operands with disjoint non-zero bits concatenate
	if (v.size() <= 16)
	{
		bool cand = true;
		for (N x : v) if (x->op != Op::Cat) { cand = false; break; }
		if (cand) { bool ok; N r = disjointMerge(v, k, w, ok); if (ok) return r; }
	}
	// combine operands over the same byte leaf
	{
		N s = nullptr; bool dup = false;
		std::map<uint32_t, int> cnt;
		for (N x : v) if (x->sup && x->w <= 64) if (++cnt[x->sup->id] > 1) dup = true;
		(void)s;
		if (dup && v.size() > 1 && !(cnt.size() == 1 && cnt.begin()->second == (int)v.size()))
		{
			std::vector<N> rest; std::map<uint32_t, std::vector<N>> g;
			for (N x : v) if (x->sup && x->w <= 64 && cnt[x->sup->id] > 1) g[x->sup->id].push_back(x); else rest.push_back(x);
			N r = mkConst(w, k);
			for (auto &p : g) { N q = nullptr; for (N x : p.second) q = q ? xorN(q, x) : x; rest.push_back(q); }
			std::vector<N> flat; u128 kk = k;
			for (N x : rest) { if (x->op == Op::Const) kk ^= x->k; else if (x->op == Op::Xor && !x->lin) { kk ^= x->k; flat.insert(flat.end(), x->a.begin(), x->a.end()); } else flat.push_back(x); }
			(void)r;
			// groups are tables now, so this terminates
			bool again = false; std::map<uint32_t, int> c2;
			for (N x : flat) if (x->sup && x->w <= 64) if (++c2[x->sup->id] > 1) again = true;
			if (!again || flat.size() < v.size()) return xorFinish(flat, kk, w);
		}
	}
	// table operands vanish at zero; the constant is kept apart
	if (v.size() > 1)
	{
		bool ch = false;
		for (N &x : v) if (x->op == Op::Tab && (*x->tab)[0])
		{
			auto t = *x->tab; uint64_t z = t[0]; for (auto &e : t) e ^= z;
			k ^= z; x = mkTabRaw(w, x->a[0], t); ch = true;
		}
		if (ch)
		{
			std::vector<N> f; u128 kk = k;
			for (N x : v) { if (x->op == Op::Const) kk ^= x->k; else if (x->op == Op::Xor && !x->lin) { kk ^= x->k; f.insert(f.end(), x->a.begin(), x->a.end()); } else f.push_back(x); }
			return xorFinish(f, kk, w);
		}
	}
	Node n; n.op = Op::Xor; n.w = w; n.k = k; n.a = v;
	return maybeTab(intern(std::move(n)));
}
N xorN(N a, N b)
{
	if (a == b) return mkConst(a->w, 0);
	if (a->op == Op::Const && b->op == Op::Const) return mkConst(a->w, a->k ^ b->k);
	if (isConst(a, 0)) return b;
	if (isConst(b, 0)) return a;
	std::vector<N> v; u128 k = 0;
	for (N x : {a, b})
	{
		if (x->op == Op::Const) k ^= x->k;
		else if (x->op == Op::Xor && !x->lin) { k ^= x->k; v.insert(v.end(), x->a.begin(), x->a.end()); }
		else v.push_back(x);
	}
	return xorFinish(v, k, a->w);
}
N notN(N a) { return xorN(a, mkConst(a->w, maskw(a->w))); }

static size_t xorTerms(N n) { return n->op == Op::Xor ? n->a.size() + (n->k ? 1 : 0) : 1; }

static N andFinish(std::vector<N> &v, u128 k, unsigned w)
{
	std::sort(v.begin(), v.end(), [](N x, N y) { return x->id < y->id; });
	v.erase(std::unique(v.begin(), v.end()), v.end());
	if (k == 0) return mkConst(w, 0);
	if (v.empty()) return mkConst(w, k);
	if (v.size() == 1 && k == maskw(w)) return v[0];
	// split by constant bits
	u128 cm = maskw(w) & ~k;   // bits forced to zero by k
	bool any = cm != 0;
	for (N x : v) { u128 m, val; if (constBits(x, m, val)) any = true; }
	if (any)
	{
		// boundaries
		std::vector<bool> bd(w + 1, false); bd[0] = bd[w] = true;
		auto mark = [&](u128 m) { for (unsigned i = 1; i < w; ++i) if (((m >> i) & 1) != ((m >> (i - 1)) & 1)) bd[i] = true; };
		mark(k);
		for (N x : v) { u128 m, val; constBits(x, m, val); mark(m); mark(m & val); }
		unsigned cnt = 0; for (unsigned i = 0; i < w; ++i) cnt += bd[i];
		if (cnt > 1 && cnt <= 24)
		{
			std::vector<Piece> ps;
			for (unsigned pos = 0; pos < w;)
			{
				unsigned e = pos + 1; while (!bd[e]) ++e;
				unsigned len = e - pos;
				bool zero = !((k >> pos) & 1);
				std::vector<N> rest;
				for (N x : v)
				{
					u128 m, val; constBits(x, m, val);
					if ((m >> pos) & 1) { if (!((val >> pos) & 1)) zero = true; }
					else rest.push_back(slice(x, pos, len));
				}
				N r;
				if (zero) r = mkConst(len, 0);
				else { r = mkConst(len, maskw(len)); for (N x : rest) r = andN(r, x); }
				ps.push_back({r, 0, (uint16_t)len, 0});
				pos = e;
			}
			return cat(ps);
		}
		if (cnt > 24)
		{
			// long constants: cut only where the operands change between constant and symbolic
			std::vector<bool> b2(w + 1, false); b2[0] = b2[w] = true;
			for (N x : v) { u128 m, val; constBits(x, m, val); for (unsigned i = 1; i < w; ++i) if (((m >> i) & 1) != ((m >> (i - 1)) & 1)) b2[i] = true; }
			unsigned c2 = 0; for (unsigned i = 0; i < w; ++i) c2 += b2[i];
			if (c2 > 1 && c2 <= 24)
			{
				std::vector<Piece> ps;
				for (unsigned pos = 0; pos < w;)
				{
					unsigned e = pos + 1; while (!b2[e]) ++e;
					N r = mkConst(e - pos, (k >> pos) & maskw(e - pos));
					for (N x : v) r = andN(r, slice(x, pos, e - pos));
					ps.push_back({r, 0, (uint16_t)(e - pos), 0});
					pos = e;
				}
				return cat(ps);
			}
		}
	}
	// expand small products of xors (algebraic normal form)
	size_t prod = 1; bool hasXor = false;
	for (N x : v) { size_t t = xorTerms(x); if (t > 1) hasXor = true; prod *= t; if (prod > 16) break; }
	if (hasXor && prod <= 16)
	{
		std::vector<N> terms{mkConst(w, k)};
		for (N x : v)
		{
			std::vector<N> nt;
			if (x->op == Op::Xor)
			{
				for (N t : terms) { for (N y : x->a) nt.push_back(andN(t, y)); if (x->k) nt.push_back(andN(t, mkConst(w, x->k))); }
			}
			else for (N t : terms) nt.push_back(andN(t, x));
			terms.swap(nt);
		}
		N r = mkConst(w, 0);
		for (N t : terms) r = xorN(r, t);
		return r;
	}
	Node n; n.op = Op::And; n.w = w; n.k = k; n.a = v;
	return maybeTab(intern(std::move(n)));
}
N andN(N a, N b)
{
	if (a == b) return a;
	if (a->op == Op::Const && b->op == Op::Const) return mkConst(a->w, a->k & b->k);
	for (int i = 0; i < 2; ++i, std::swap(a, b))
		if (b->op == Op::Const)
		{
			if (b->k == 0) return b;
			if (b->k == maskw(a->w)) return a;
			if (a->aff)
			{
				// low mask = remainder; high mask = multiple
				u128 k = b->k;
				if ((k & (k + 1)) == 0) { N q, r; if (affDivMod(a, k + 1, q, r)) return r; }
				u128 nk = ~k & maskw(a->w);
				if ((nk & (nk + 1)) == 0 && nk) { N q, r; if (affDivMod(a, nk + 1, q, r)) return sub(a, r); }
			}
		}
	std::vector<N> v; u128 k = maskw(a->w);
	for (N x : {a, b})
	{
		if (x->op == Op::Const) k &= x->k;
		else if (x->op == Op::And) { k &= x->k; v.insert(v.end(), x->a.begin(), x->a.end()); }
		else v.push_back(x);
	}
	return andFinish(v, k, a->w);
}
N orN(N a, N b)
{
	if (a == b) return a;
	if (a->op == Op::Const && b->op == Op::Const) return mkConst(a->w, a->k | b->k);
	if (isConst(a, 0)) return b;
	if (isConst(b, 0)) return a;
	if (a->op == Op::Cat || b->op == Op::Cat)
	{
		std::vector<N> v; u128 c = 0;
		for (N x : {a, b}) if (x->op == Op::Const) c = x->k; else v.push_back(x);
		bool ok; N r = disjointMerge(v, c, a->w, ok);
		if (ok) return r;
	}
	if (a->aff && b->aff)   // low bits below a multiple of a power of two
	{
		for (int i = 0; i < 2; ++i, std::swap(a, b))
		{
			u128 m = maxVal(b), p = 1; while (p <= m && p) p <<= 1;
			N q, r; if (p && affDivMod(a, p, q, r) && isConst(r, 0)) return add(a, b);
		}
	}
	return xorN(xorN(a, b), andN(a, b));
}

// ---------------------------------------------------------------- comparisons
// Chaining words after no block are the initial values; comparisons see them.
std::vector<N> chainIv;
static bool startAtom(N n) { return n->op == Op::Atom && n->ak == AK::Chain && n->k < chainIv.size() && chainIv[(size_t)n->k]->w == n->w && isConst(n->a[0], 0); }
static N atStart(N n)
{
	if (n->aff || n->op == Op::Const) return n;
	if (startAtom(n)) return chainIv[(size_t)n->k];
	bool any = false; size_t m = n->a.size() + n->ps.size();
	if (m > 32) return n;
	for (N x : n->a) any = any || startAtom(x);
	for (auto &q : n->ps) any = any || (q.n && startAtom(q.n));
	if (!any) return n;
	Subst S; S.atom = [](N x) { return startAtom(x) ? chainIv[(size_t)x->k] : x; };
	return S(n);
}
N icmp(Pred p, N a, N b)
{
	if (p == Pred::UGT) return icmp(Pred::ULT, b, a);
	if (p == Pred::UGE) return notN(icmp(Pred::ULT, a, b));
	if (p == Pred::ULE) return notN(icmp(Pred::ULT, b, a));
	if (p == Pred::SGT) return icmp(Pred::SLT, b, a);
	if (p == Pred::SGE) return notN(icmp(Pred::SLT, a, b));
	if (p == Pred::SLE) return notN(icmp(Pred::SLT, b, a));
	if (p == Pred::NE) return notN(icmp(Pred::EQ, a, b));
	N T = mkConst(1, 1), Fa = mkConst(1, 0);
	if (a == b) return p == Pred::EQ ? T : Fa;
	unsigned w = a->w;
	if (isConst(a) && isConst(b))
	{
		bool r = p == Pred::EQ ? a->k == b->k : p == Pred::ULT ? a->k < b->k : sx(a->k, w) < sx(b->k, w);
		return r ? T : Fa;
	}
	if (!chainIv.empty() && !(a->aff && b->aff)) { N x = atStart(a), y = atStart(b); if (x != a || y != b) return icmp(p, x, y); }
	if (a->aff && b->aff)
	{
		if (p == Pred::EQ)
		{
			N d = sub(a, b);
			if (isConst(d)) return d->k == 0 ? T : Fa;
			Aff x; if (toAffRaw(d, x))
			{
				// d == 0 modulo 2^w: decided when the exact value lies strictly inside (0, 2^w) or (-2^w, 0)
				i128 lo = loBound(x), hi = hiBound(x), M = w < 120 ? (i128)1 << w : (i128)1 << 120;
				if ((lo > 0 && hi < M) || (hi < 0 && lo > -M)) return Fa;
			}
			Aff xa, xb;
			bool ok = (toAff(a, xa) && toAff(b, xb)) || (toAffS(a, xa) && toAffS(b, xb));
			if (ok) { Aff e = affAdd(xa, xb, -1); i128 lo = loBound(e), hi = hiBound(e); if (lo > 0 || hi < 0) return Fa; if (lo == 0 && hi == 0) return T; }
		}
		else
		{
			Aff xa, xb; bool ok = p == Pred::ULT ? (toAff(a, xa) && toAff(b, xb)) : (toAffS(a, xa) && toAffS(b, xb));
			if (ok)
			{
				Aff e = affAdd(xb, xa, -1);   // b - a
				if (loBound(e) > 0) return T;
				if (hiBound(e) <= 0) return Fa;
			}
		}
	}
	if (p == Pred::SLT && nonNeg(a) && nonNeg(b)) return icmp(Pred::ULT, a, b);
	if (p == Pred::ULT)
	{
		if (isConst(b, 0)) return Fa;
		if (isConst(b) && maxVal(a) < b->k) return T;
		if (isConst(a) && maxVal(b) <= a->k) return Fa;
	}
	if (p == Pred::EQ)
	{
		if (a->id > b->id) std::swap(a, b);
		if (isConst(a) && maxVal(b) < a->k) return Fa;
		if (isConst(b) && maxVal(a) < b->k) return Fa;
		if (w == 1) return isConst(a) ? (a->k ? b : notN(b)) : isConst(b) ? (b->k ? a : notN(a)) : notN(xorN(a, b));
		// equality of concatenations with a zero-extended pair: compare the parts
		if (a->op == Op::Cat && b->op == Op::Cat)
		{
			auto &pa = a->ps.back(); auto &pb = b->ps.back();
			if (!pa.n && !pb.n && pa.len == pb.len && pa.c == pb.c) return icmp(p, slice(a, 0, w - pa.len), slice(b, 0, w - pa.len));
		}
		// x ^ y == 0  <=>  x == y
		for (int i = 0; i < 2; ++i, std::swap(a, b))
			if (isConst(b, 0) && a->op == Op::Xor && a->a.size() == 2 && a->k == 0) return icmp(Pred::EQ, a->a[0], a->a[1]);
		if (a->id > b->id) std::swap(a, b);
	}
	if (p == Pred::ULT && a->op == Op::Cat && b->op == Op::Const)
	{
		auto &pa = a->ps.back();
		if (!pa.n && pa.c == 0 && b->k <= maskw(w - pa.len)) return icmp(p, slice(a, 0, w - pa.len), mkConst(w - pa.len, b->k));
	}
	Node n; n.op = Op::ICmp; n.w = 1; n.pred = p; n.a = {a, b};
	return maybeTab(intern(std::move(n)));
}
N ite(N c, N a, N b)
{
	if (isConst(c)) return c->k ? a : b;
	if (a == b) return a;
	if (a->w == 1) return xorN(b, andN(c, xorN(a, b)));
	if (c->op == Op::Xor && c->a.size() == 1 && c->k) return ite(c->a[0], b, a);
	Node n; n.op = Op::Ite; n.w = a->w; n.a = {c, a, b};
	return maybeTab(intern(std::move(n)));
}

VarCond varCond(N c)
{
	VarCond r; bool negated = false;
	if (c->op == Op::Xor && c->a.size() == 1 && c->k) { negated = true; c = c->a[0]; }
	if (c->op != Op::ICmp) return r;
	N a = c->a[0], b = c->a[1];
	Aff xa, xb;
	if (c->pred == Pred::EQ)
	{
		if (!((toAff(a, xa) && toAff(b, xb)) || (toAffS(a, xa) && toAffS(b, xb)))) { if (!toAffRaw(sub(a, b), xa)) return r; xb = Aff(); }
		r.ok = true; r.eq = true; r.neg = negated; r.e = affAdd(xa, xb, -1);
		return r;
	}
	bool ok = c->pred == Pred::ULT ? (toAff(a, xa) && toAff(b, xb)) : c->pred == Pred::SLT ? (toAffS(a, xa) && toAffS(b, xb)) : false;
	if (!ok) return r;
	r.ok = true;
	if (!negated) { r.e = affAdd(xb, xa, -1); r.e.c -= 1; }      // a<b  : b-a-1>=0
	else r.e = affAdd(xa, xb, -1);                                // a>=b : a-b>=0
	return r;
}

// The condition read without wrap-around: valid where both sides stay in [lo, hi).
VarCond varCondRaw(N c, Aff side[2], i128 &lo, i128 &hi)
{
	VarCond r; bool negated = false;
	if (c->op == Op::Xor && c->a.size() == 1 && c->k) { negated = true; c = c->a[0]; }
	if (c->op != Op::ICmp || (c->pred != Pred::ULT && c->pred != Pred::SLT)) return r;
	N a = c->a[0], b = c->a[1];
	if (a->w >= 126 || !toAffRaw(a, side[0]) || !toAffRaw(b, side[1])) return r;
	bool u = c->pred == Pred::ULT; i128 M = (i128)1 << a->w;
	if (u) { if (isConst(a)) side[0].c = (i128)a->k; if (isConst(b)) side[1].c = (i128)b->k; }
	lo = u ? 0 : -M / 2; hi = u ? M : M / 2;
	r.ok = true;
	if (!negated) { r.e = affAdd(side[1], side[0], -1); r.e.c -= 1; } else r.e = affAdd(side[0], side[1], -1);
	return r;
}

// ---------------------------------------------------------------- substitution
N Subst::operator()(N n)
{
	auto it = memo.find(n);
	if (it != memo.end()) return it->second;
	N r = n;
	Subst &S = *this;
	if (n->op != Op::Atom && !n->var)
	{
		// nothing below changes: keep the node as it was built
		bool same = true;
		for (N x : n->a) if (x && S(x) != x) { same = false; break; }
		if (same) for (auto &p : n->ps) if (p.n && S(p.n) != p.n) { same = false; break; }
		if (same) { memo[n] = n; return n; }
	}
	switch (n->op)
	{
	case Op::Const: case Op::FpConst: case Op::FpOp: break;
	case Op::Atom: r = atom(n); break;
	case Op::Lin:
	{
		if (n->aff)
		{
			Aff x; toAffRaw(n, x);
			Aff y; y.c = x.c; bool ok = true;
			for (auto &t : x.t)
			{
				N v = S(t.first); Aff z;
				if (!toAffRaw(v, z)) { ok = false; break; }
				y = affAdd(y, z, t.second);
			}
			if (ok) { r = fromAff(y, n->w); break; }
		}
		r = mkConst(n->w, n->k);
		std::vector<std::pair<N, u128>> t; u128 c = n->k;
		for (size_t i = 0; i < n->a.size(); ++i) linAcc(t, c, S(n->a[i]), n->co[i], n->w);
		r = linFinish(t, c, n->w);
		break;
	}
	case Op::Mul: r = mul(S(n->a[0]), S(n->a[1])); break;
	case Op::UDiv: r = udivN(S(n->a[0]), S(n->a[1])); break;
	case Op::URem: r = uremN(S(n->a[0]), S(n->a[1])); break;
	case Op::SDiv: r = sdivN(S(n->a[0]), S(n->a[1])); break;
	case Op::SRem: r = sremN(S(n->a[0]), S(n->a[1])); break;
	case Op::And: { std::vector<N> v; u128 k = n->k; N acc = mkConst(n->w, k); for (N x : n->a) acc = andN(acc, S(x)); r = acc; break; }
	case Op::Xor:
	{
		std::vector<N> v; u128 k = n->k;
		for (N x : n->a) { N y = S(x); if (y->op == Op::Const) k ^= y->k; else if (y->op == Op::Xor && !y->lin) { k ^= y->k; v.insert(v.end(), y->a.begin(), y->a.end()); } else v.push_back(y); }
		r = xorFinish(v, k, n->w);
		break;
	}
	case Op::Cat: { std::vector<Piece> ps; for (auto &p : n->ps) { if (p.n) { N y = S(p.n); if (y->aff) { N sl = slice(y, p.lo, p.len); ps.push_back({sl, 0, p.len, 0}); } else ps.push_back({y, p.lo, p.len, 0}); } else ps.push_back(p); } r = cat(ps); break; }
	case Op::Shl: r = shlN(S(n->a[0]), S(n->a[1])); break;
	case Op::Shr: r = lshrN(S(n->a[0]), S(n->a[1])); break;
	case Op::Sar: r = ashrN(S(n->a[0]), S(n->a[1])); break;
	case Op::ICmp: r = icmp(n->pred, S(n->a[0]), S(n->a[1])); break;
	case Op::Ite: { N c = S(n->a[0]); r = ite(c, S(n->a[1]), S(n->a[2])); break; }
	case Op::Tab: { N i = S(n->a[0]); r = mkTab(n->w, i, *n->tab); break; }
	case Op::Sel: { std::vector<N> v; for (size_t i = 1; i < n->a.size(); ++i) v.push_back(S(n->a[i])); r = mkSel(n->w, S(n->a[0]), v); break; }
	}
	memo[n] = r;
	return r;
}

// ---------------------------------------------------------------- display
static std::string num(u128 v) { char b[64]; if (v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else if (v < 4096) snprintf(b, 64, "%llu", (unsigned long long)v); else snprintf(b, 64, "0x%llx", (unsigned long long)v); return b; }
std::string show(N n, int d)
{
	if (!n) return "null";
	if (n->op == Op::Const) return num(n->k);
	if (n->op == Op::Atom)
	{
		switch (n->ak)
		{
		case AK::Var: return varName(n);
		case AK::Addr: return "&obj" + num(n->k);
		case AK::Msg: return "M" + (n->k ? num(n->k) : std::string()) + "[" + (n->a.empty() ? "" : show(n->a[0], 3)) + "]";
		case AK::Chain: return "H" + num(n->k) + "(" + (n->a.empty() ? "" : show(n->a[0], 3)) + ")";
		case AK::Junk: return "junk" + num(n->k);
		case AK::Undef: return "undef";
		case AK::Ext: return "ext" + num(n->k);
		default: return "?";
		}
	}
	if (d <= 0) return "#" + std::to_string(n->id);
	std::string s;
	auto list = [&](const char *sep) { std::string r; size_t c = 0; for (N x : n->a) { if (c++) r += sep; if (c > 8) { r += "..."; break; } r += show(x, d - 1); } return r; };
	switch (n->op)
	{
	case Op::Lin:
		for (size_t i = 0; i < n->a.size(); ++i) { if (i) s += "+"; if (i > 8) { s += "..."; break; } if (n->co[i] != 1) { i128 v = sgn(n->co[i], n->w); s += (v < 0 ? "-" + num((u128)-v) : num((u128)v)) + "*"; } s += show(n->a[i], d - 1); }
		if (n->k) { i128 v = sgn(n->k, n->w); s += v < 0 ? "-" + num((u128)-v) : "+" + num((u128)v); }
		return "(" + s + ")";
	case Op::Xor: return "(" + list(" ^ ") + (n->k ? " ^ " + num(n->k) : "") + ")";
	case Op::And: return "(" + list(" & ") + (n->k != maskw(n->w) ? " & " + num(n->k) : "") + ")";
	case Op::Cat:
	{
		size_t c = 0;
		for (auto &p : n->ps) { if (c++) s += "|"; if (c > 10) { s += "..."; break; } if (!p.n) s += num(p.c) + ":" + std::to_string(p.len); else s += show(p.n, d - 1) + (p.lo || p.len != p.n->w ? "[" + std::to_string(p.lo) + "+" + std::to_string(p.len) + "]" : ""); }
		return "{" + s + "}";
	}
	case Op::ICmp: return "(" + show(n->a[0], d - 1) + (n->pred == Pred::EQ ? "==" : n->pred == Pred::ULT ? "<u" : "<s") + show(n->a[1], d - 1) + ")";
	case Op::Ite: return "(" + show(n->a[0], d - 1) + "?" + show(n->a[1], d - 1) + ":" + show(n->a[2], d - 1) + ")";
	case Op::Tab: return "T" + std::to_string(((uintptr_t)n->tab >> 4) & 0xffff) + "[" + show(n->a[0], d - 1) + "]";
	case Op::Sel: return "sel(" + list(",") + ")";
	case Op::Mul: return "(" + list("*") + ")";
	case Op::FpConst: return "fp[" + std::to_string(n->flo) + "," + std::to_string(n->fhi) + "]";
	default: return "op" + std::to_string((int)n->op) + "(" + list(",") + ")";
	}
}

// ---------------------------------------------------------------- random interpretation (probabilistic value numbers)
static uint32_t laneGen = 1;
static uint64_t laneSeed = 0, laneFacts = 0;
int undefMode = 0; static int laneUndef = 0;
static unsigned laneChunk = 0;
static u128 rnd(uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
	uint64_t h = mix(mix(mix(mix(0x1234567, a), b), c), d);
	uint64_t g = mix(h, 0xabcdef);
	return ((u128)h << 64) | g;
}
// directed valuations: chosen bits of data atoms, per lane
struct Forced { u128 mask = 0, val = 0; };
static std::map<std::tuple<int, uint64_t, uint64_t>, Forced> forced[LANES];
static bool anyForced = false;
static inline u128 laneGet(N n, unsigned l)
{
	if (n->op == Op::Const) return n->k;
	return n->w > 64 ? ((u128)n->lanes[LANES + l] << 64) | n->lanes[l] : n->lanes[l];
}
std::set<uint64_t> inputAddr;
bool mentionsAddr(N n)
{
	std::unordered_set<N> seen; std::vector<N> st{n};
	while (!st.empty())
	{
		N x = st.back(); st.pop_back();
		if (!seen.insert(x).second) continue;
		if (x->op == Op::Atom && x->ak == AK::Addr) return true;
		for (N y : x->a) st.push_back(y);
		for (auto &p : x->ps) if (p.n) st.push_back(p.n);
	}
	return false;
}
static void laneEval(N n)
{
	if (n->op == Op::Const || n->laneGen == laneGen) return;
	for (N x : n->a) laneEval(x);
	for (auto &p : n->ps) if (p.n) laneEval(p.n);
	n->lanes.resize(n->w > 64 ? 2 * LANES : LANES);
	n->laneGen = laneGen;
	uint64_t *o = n->lanes.data();
	uint64_t m = (uint64_t)maskw(n->w);
	if (n->op == Op::Atom)
	{
		for (unsigned l = 0; l < LANES; ++l)
		{
			unsigned lane = laneChunk * LANES + l; uint64_t seed = laneSeed; u128 v;
			u128 pos = n->a.empty() ? 0 : laneGet(n->a[0], l);
			if (n->ak == AK::Var)
			{
				Range r = rangeOf(n);
				u128 span = (u128)(r.hi - r.lo) + 1;
				u128 x = rnd(seed, lane, 77, n->id);
				unsigned mode = (unsigned)(x >> 120) & 3;
				if (span == 0) v = x;
				else if (mode == 0) v = (u128)r.lo + (x & 0xff) % span;                    // small
				else if (mode == 1) { unsigned bits = 1; while (bits < 100 && ((u128)1 << bits) < span) ++bits; unsigned b = (unsigned)(x >> 64) % (bits + 1); v = (u128)r.lo + (x & maskw(b)) % span; }
				else v = (u128)r.lo + (x & maskw(100)) % span;
			}
			else if (n->ak == AK::Addr)
			{
				// objects may lie anywhere their alignment allows: aligned, a little off, close to the end of a page
				u128 x = rnd(seed, lane, 78, (uint64_t)n->k); unsigned mode = (unsigned)(x >> 120) & 3;
				uint64_t low = mode == 0 ? 0 : mode == 1 ? (uint64_t)x & 31 : mode == 2 ? 4096 - ((uint64_t)x & 63) : (uint64_t)x & 4095;
				if (!inputAddr.count((uint64_t)n->k)) low &= ~(uint64_t)15;
				v = (((rnd(1, 2, 3, (uint64_t)n->k) & maskw(n->w >= 64 ? 40 : 28)) >> 12) << 12) + 0x10000 + low;
			}
			else if (n->ak == AK::Undef && undefMode) v = undefMode == 1 ? rnd(seed, lane, 99, 99) : undefMode == 2 ? 0 : ~(u128)0;
			else v = rnd(seed, lane, (uint64_t)n->ak * 1000003 + (uint64_t)n->k, (uint64_t)pos);
			if (anyForced && (n->ak == AK::Msg || n->ak == AK::Chain || n->ak == AK::Ext)) { auto f = forced[l].find(std::make_tuple((int)n->ak, (uint64_t)n->k, (uint64_t)pos)); if (f != forced[l].end()) v = (v & ~f->second.mask) | f->second.val; }
			v &= maskw(n->w);
			o[l] = (uint64_t)v; if (n->w > 64) o[LANES + l] = (uint64_t)(v >> 64);
		}
		return;
	}
	bool narrow = n->w <= 64;
	for (N x : n->a) narrow = narrow && x->w <= 64;
	for (auto &p : n->ps) if (p.n) narrow = narrow && p.n->w <= 64;
	if (narrow)
	{
		static const uint64_t *zero = nullptr; (void)zero;
		uint64_t tmp[LANES];
		auto get = [&](N x) -> const uint64_t * { if (x->op != Op::Const) return x->lanes.data(); for (unsigned l = 0; l < LANES; ++l) tmp[l] = (uint64_t)x->k; return tmp; };
		auto fill = [&](uint64_t v) { for (unsigned l = 0; l < LANES; ++l) o[l] = v; };
		switch (n->op)
		{
		case Op::Lin: fill((uint64_t)n->k); for (size_t i = 0; i < n->a.size(); ++i) { auto x = get(n->a[i]); uint64_t c = (uint64_t)n->co[i]; for (unsigned l = 0; l < LANES; ++l) o[l] += c * x[l]; } for (unsigned l = 0; l < LANES; ++l) o[l] &= m; return;
		case Op::Xor: fill((uint64_t)n->k); for (N y : n->a) { auto x = get(y); for (unsigned l = 0; l < LANES; ++l) o[l] ^= x[l]; } return;
		case Op::And: fill((uint64_t)n->k); for (N y : n->a) { auto x = get(y); for (unsigned l = 0; l < LANES; ++l) o[l] &= x[l]; } return;
		case Op::Cat: { fill(0); unsigned pos = 0; for (auto &p : n->ps) { if (!p.n) { uint64_t v = (uint64_t)p.c << pos; for (unsigned l = 0; l < LANES; ++l) o[l] |= v; } else { auto x = get(p.n); uint64_t pm = (uint64_t)maskw(p.len); for (unsigned l = 0; l < LANES; ++l) o[l] |= ((x[l] >> p.lo) & pm) << pos; } pos += p.len; } for (unsigned l = 0; l < LANES; ++l) o[l] &= m; return; }
		case Op::Tab: { auto x = get(n->a[0]); auto &t = *n->tab; for (unsigned l = 0; l < LANES; ++l) o[l] = t[x[l]] & m; return; }
		default: break;
		}
	}
	for (unsigned l = 0; l < LANES; ++l)
	{
		u128 v = evalOp(n, [&](N x) { return laneGet(x, l); }) & maskw(n->w);
		o[l] = (uint64_t)v; if (n->w > 64) o[LANES + l] = (uint64_t)(v >> 64);
	}
}
std::vector<uint64_t> laneVec(N n, unsigned chunk, uint64_t seed)
{
	uint64_t fs = F ? F->sig : 0;
	if (seed != laneSeed || fs != laneFacts || chunk != laneChunk || undefMode != laneUndef) { laneUndef = undefMode; laneSeed = seed; laneFacts = fs; laneChunk = chunk; ++laneGen; }
	std::vector<uint64_t> r;
	if (n->op == Op::Const) { r.assign(n->w > 64 ? 2 * LANES : LANES, (uint64_t)n->k); if (n->w > 64) for (unsigned l = 0; l < LANES; ++l) r[LANES + l] = (uint64_t)(n->k >> 64); return r; }
	laneEval(n);
	return n->lanes;
}
// lanes whose partition variables satisfy all current facts
uint32_t validLanes(unsigned chunk, uint64_t seed)
{
	static uint64_t vs = 0, vf = 0; static unsigned vc = ~0u; static uint32_t vm = 0;
	uint64_t fs = F ? F->sig : 0;
	if (!F || F->ge0.empty()) return (1u << LANES) - 1;
	if (vs == seed && vf == fs && vc == chunk) return vm;
	uint32_t m = (1u << LANES) - 1;
	for (auto &g : F->ge0)
	{
		std::vector<i128> sum(LANES, g.c);
		for (auto &t : g.t) { auto v = laneVec(t.first, chunk, seed); for (unsigned l = 0; l < LANES; ++l) sum[l] += t.second * (i128)v[l]; }
		for (unsigned l = 0; l < LANES; ++l) if (sum[l] < 0) m &= ~(1u << l);
	}
	vs = seed; vf = fs; vc = chunk; vm = m;
	return m;
}
bool lanesDiffer(N a, N b, unsigned chunks, uint64_t seed, bool *decided)
{
	if (decided) *decided = true;
	if (a->w != b->w) return true;
	bool any = false;
	for (unsigned c = 0; c < chunks; ++c)
	{
		auto x = laneVec(a, c, seed), y = laneVec(b, c, seed);
		uint32_t v = validLanes(c, seed);
		for (unsigned l = 0; l < x.size(); ++l) if ((v >> (l % LANES)) & 1) { any = true; if (x[l] != y[l]) return true; }
	}
	if (decided) *decided = any;
	return false;
}

// ---------------------------------------------------------------- directed valuations
// Random valuations never take a branch that needs an equality. Conditions that depend on data are therefore also made true (or false)
// on purpose, by choosing message bytes and chaining values backwards through invertible operations. Every valuation found is only used
// by evaluating both sides under it.
static uint64_t dirRng = 1;
static unsigned pick(unsigned n) { dirRng = mix(dirRng, 0x51ed270b); return n ? (unsigned)((dirRng >> 20) % n) : 0; }
static u128 invOdd(u128 c) { u128 x = c; for (int i = 0; i < 7; ++i) x *= 2 - c * x; return x; }
static bool solveFor(N n, u128 val, u128 mask, unsigned l, int depth)
{
	mask &= maskw(n->w); val &= mask;
	if ((laneGet(n, l) & mask) == val) { if (n->op == Op::Const) return true; }
	if (n->op == Op::Const) return false;
	if (!mask) return true;
	if (depth <= 0 || n->junk || n->undef) return false;
	switch (n->op)
	{
	case Op::Atom:
	{
		if (n->ak != AK::Msg && n->ak != AK::Chain && n->ak != AK::Ext) return (laneGet(n, l) & mask) == val;
		u128 pos = n->a.empty() ? 0 : laneGet(n->a[0], l);
		if (n->ak == AK::Chain && pos == 0) return (laneGet(n, l) & mask) == val;   // the initial value is not free
		Forced &f = forced[l][std::make_tuple((int)n->ak, (uint64_t)n->k, (uint64_t)pos)];
		if (f.mask & mask & (f.val ^ val)) return false;
		f.mask |= mask; f.val |= val; anyForced = true;
		return true;
	}
	case Op::Cat:
	{
		unsigned pos = 0; bool ok = true;
		for (auto &q : n->ps)
		{
			u128 m = (mask >> pos) & maskw(q.len), v = (val >> pos) & maskw(q.len);
			if (m) { if (!q.n) ok = ok && (q.c & m) == v; else ok = ok && solveFor(q.n, v << q.lo, m << q.lo, l, depth - 1); }
			pos += q.len;
			if (!ok) return false;
		}
		return ok;
	}
	case Op::Xor:
	{
		// (an or is written with exclusive ors and ands: nothing but zeros makes it zero)
		if (!((val ^ n->k) & mask) && pick(2)) { bool all = true; for (N x : n->a) all = all && (((laneGet(x, l) & mask) == 0 && x->op != Op::Atom) || solveFor(x, 0, mask, l, depth - 1)); if (all) return true; }
		size_t k = n->a.size(), st = pick((unsigned)k);
		for (size_t t = 0; t < k; ++t)
		{
			size_t i = (st + t) % k; u128 want = val ^ n->k;
			for (size_t j = 0; j < k; ++j) if (j != i) want ^= laneGet(n->a[j], l);
			if (solveFor(n->a[i], want, mask, l, depth - 1)) return true;
		}
		return false;
	}
	case Op::Lin:
	{
		unsigned top = 0; for (unsigned b = 0; b < n->w; ++b) if (mask >> b & 1) top = b + 1;
		u128 full = maskw(top), target = (val & mask) | (laneGet(n, l) & full & ~mask);
		size_t k = n->a.size(), st = pick((unsigned)k);
		for (size_t t = 0; t < k; ++t)
		{
			size_t i = (st + t) % k; if (n->a[i]->var) continue;
			u128 want = target - n->k;
			for (size_t j = 0; j < k; ++j) if (j != i) want -= n->co[j] * laneGet(n->a[j], l);
			want &= full; u128 c = n->co[i]; unsigned sh = 0;
			if (!c) continue;
			while (!(c & 1)) { c >>= 1; ++sh; }
			if (sh >= top || (want & maskw(sh))) continue;
			want = ((want >> sh) * invOdd(c)) & maskw(top - sh);
			if (want & ~maskw(n->a[i]->w)) continue;
			if (solveFor(n->a[i], want, maskw(std::min<unsigned>(top - sh, n->a[i]->w)), l, depth - 1)) return true;
		}
		return false;
	}
	case Op::And:
	{
		if (val & ~n->k) return false;
		u128 ones = val, zeros = mask & n->k & ~val;
		for (N x : n->a) if (ones && !solveFor(x, ones, ones, l, depth - 1)) return false;
		if (zeros && n->a.empty()) return false;
		if (zeros)
		{
			u128 cur = n->k; for (N x : n->a) cur &= laneGet(x, l);
			zeros &= cur; if (!zeros) return true;
			size_t st = pick((unsigned)n->a.size());
			for (size_t t = 0; t < n->a.size(); ++t) if (solveFor(n->a[(st + t) % n->a.size()], 0, zeros, l, depth - 1)) return true;
			return false;
		}
		return true;
	}
	case Op::Tab:
	{
		auto &tb = *n->tab; size_t st = pick((unsigned)tb.size());
		for (size_t t = 0, tries = 0; t < tb.size() && tries < 4; ++t) { size_t i = (st + t) % tb.size(); if ((tb[i] & mask) == val) { ++tries; if (solveFor(n->a[0], i, maskw(n->a[0]->w), l, depth - 1)) return true; } }
		return false;
	}
	case Op::Ite:
	{
		bool c = laneGet(n->a[0], l) & 1;
		for (int t = 0; t < 2; ++t)
		{
			bool want = t ? !c : c; N br = n->a[want ? 1 : 2];
			if (isConst(br) && (br->k & mask) != val) continue;
			if (want != c && !solveFor(n->a[0], want, 1, l, depth - 1)) continue;
			if (isConst(br) || solveFor(br, val, mask, l, depth - 1)) return true;
		}
		return false;
	}
	case Op::Sel:
	{
		size_t k = n->a.size() - 1, st = pick((unsigned)k);
		for (size_t t = 0, tries = 0; t < k && tries < 4; ++t) { size_t i = (st + t) % k; if ((laneGet(n->a[1 + i], l) & mask) == val) { ++tries; if (solveFor(n->a[0], i, maskw(n->a[0]->w), l, depth - 1)) return true; } }
		return false;
	}
	case Op::ICmp:
	{
		N x = n->a[0], y = n->a[1]; bool want = val & 1; Pred pr = n->pred;
		switch (pr) { case Pred::NE: pr = Pred::EQ; want = !want; break; case Pred::UGE: pr = Pred::ULT; want = !want; break; case Pred::SGE: pr = Pred::SLT; want = !want; break;
		case Pred::UGT: pr = Pred::ULT; std::swap(x, y); break; case Pred::SGT: pr = Pred::SLT; std::swap(x, y); break;
		case Pred::ULE: pr = Pred::ULT; std::swap(x, y); want = !want; break; case Pred::SLE: pr = Pred::SLT; std::swap(x, y); want = !want; break; default: break; }
		u128 vx = laneGet(x, l), vy = laneGet(y, l), m = maskw(x->w), low = pr == Pred::SLT ? (u128)1 << (x->w - 1) : 0, high = (low - 1) & m;
		auto sx_ = [&](u128 v) { return solveFor(x, v, m, l, depth - 1); }; auto sy_ = [&](u128 v) { return solveFor(y, v, m, l, depth - 1); };
		unsigned o = pick(2);
		if (pr == Pred::EQ)
		{
			if (want) return o ? sx_(vy) || sy_(vx) : sy_(vx) || sx_(vy);
			return o ? sx_(vy ^ 1) || sy_(vx ^ 1) : sy_(vx ^ 1) || sx_(vy ^ 1);
		}
		if (want)
		{
			if (vy != low && (o ? sx_((vy - 1) & m) : sx_(low))) return true;
			return (vx != high && sy_((vx + 1) & m)) || sy_(high) || (vy != low && sx_(low));
		}
		return o ? sx_(vy) || sy_(vx) || sx_(high) : sy_(vx) || sx_(vy) || sy_(low);
	}
	default: return false;
	}
}
static double dirSpent = 0;
bool directed(const std::vector<std::pair<N, bool>> &goals, N a, N b, uint64_t seed, unsigned rounds)
{
	static const double budget = [] { const char *e = getenv("HASHAN_DIRECTED"); return e ? atof(e) : 25.0; }();
	if (dirSpent > budget) return false;
	struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	std::vector<N> conds; std::unordered_set<N> seen; std::vector<N> st;
	if (a) { st.push_back(a); st.push_back(b); }
	for (auto &g : goals) st.push_back(g.first);
	while (!st.empty())
	{
		N x = st.back(); st.pop_back();
		if (!seen.insert(x).second) continue;
		if (x->op == Op::ICmp && !x->var && !x->junk && !x->undef) conds.push_back(x);
		for (N y : x->a) st.push_back(y);
		for (auto &p : x->ps) if (p.n) st.push_back(p.n);
	}
	std::sort(conds.begin(), conds.end(), [](N x, N y) { return x->id < y->id; });
	bool found = false; size_t nc = conds.size();
	auto evalAll = [&](uint64_t sd) { ++laneGen; for (auto &g : goals) laneVec(g.first, 0, sd); if (a) { laneVec(a, 0, sd); laneVec(b, 0, sd); } for (N c : conds) laneVec(c, 0, sd); };
	for (unsigned r = 0; r < rounds && !found; ++r)
	{
		uint64_t sd = mix(seed, 1000 + r); dirRng = mix(sd, 99);
		for (auto &f : forced) f.clear(); anyForced = false;
		evalAll(sd);
		std::vector<std::pair<N, bool>> todo[LANES]; size_t passes = 0;
		for (unsigned l = 0; l < LANES; ++l)
		{
			todo[l] = goals;
			if (nc)
			{
				size_t idx = (size_t)r * LANES + l;
				if (idx < nc) todo[l].push_back({conds[idx], !(laneGet(conds[idx], l) & 1)});
				else
				{
					unsigned dens = 1 + pick(3); size_t from = pick((unsigned)nc), cnt = 0;
					for (size_t i = 0; i < nc && cnt < 12; ++i) if (nc <= 3 ? pick(4) : pick(4) < dens) { N c = conds[nc <= 12 ? i : (from + i) % nc]; todo[l].push_back({c, !(laneGet(c, l) & 1)}); ++cnt; }
				}
			}
			passes = std::max(passes, todo[l].size());
		}
		for (size_t i = 0; i < passes; ++i)
		{
			bool ch = false;
			for (unsigned l = 0; l < LANES; ++l) if (i < todo[l].size()) { auto &t = todo[l][i]; if (isConst(t.first) || (laneGet(t.first, l) & 1) == (unsigned)t.second) continue; solveFor(t.first, t.second, 1, l, 24); ch = true; }
			if (ch) evalAll(sd);
		}
		// once more for goals that later choices upset
		for (int again = 0; again < 3 && !goals.empty(); ++again)
		{
			bool ch = false;
			for (auto &g : goals) { for (unsigned l = 0; l < LANES; ++l) if (!isConst(g.first) && (laneGet(g.first, l) & 1) != (unsigned)g.second) { solveFor(g.first, g.second, 1, l, 24); ch = true; } if (ch) evalAll(sd); }
			if (!ch) break;
		}
		uint32_t v = (1u << LANES) - 1;
		if (F) for (auto &g : F->ge0) { std::vector<i128> sum(LANES, g.c); for (auto &t : g.t) { auto x = laneVec(t.first, 0, sd); for (unsigned l = 0; l < LANES; ++l) sum[l] += t.second * (i128)x[l]; } for (unsigned l = 0; l < LANES; ++l) if (sum[l] < 0) v &= ~(1u << l); }
		for (unsigned l = 0; l < LANES && !found; ++l)
		{
			if (!(v >> l & 1)) continue;
			bool ok = true; for (auto &g : goals) ok = ok && (laneGet(g.first, l) & 1) == (unsigned)g.second;
			if (ok && (!a || laneGet(a, l) != laneGet(b, l))) found = true;
		}
		struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
		if (dirSpent + (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > budget) break;
	}
	for (auto &f : forced) f.clear(); anyForced = false; ++laneGen;
	struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
	dirSpent += (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
	return found;
}
bool hasDataCmp(N n)
{
	std::unordered_set<N> seen; std::vector<N> st{n};
	while (!st.empty())
	{
		N x = st.back(); st.pop_back();
		if (!seen.insert(x).second) continue;
		if ((x->op == Op::ICmp || x->op == Op::Ite || x->op == Op::Sel) && (!x->var || mentionsAddr(x))) return true;
		for (N y : x->a) st.push_back(y);
		for (auto &p : x->ps) if (p.n) st.push_back(p.n);
	}
	return false;
}
