#include <time.h>
#include "interp.h"
#include <iostream>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>

using namespace llvm;
using std::string; using std::vector; using std::pair;

static uint64_t verCounter = 0;
static const char *traceMemo = getenv("HASHAN_MEMO");
static bool traceGen = getenv("HASHAN_GEN") != nullptr;
static bool traceOn = getenv("HASHAN_TRACE") != nullptr;

Obj &Mem::mut(uint32_t id)
{
	auto &p = objs[id];
	if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
	p->ver = ++verCounter;
	return *p;
}
uint32_t Mem::alloc(OK k, uint64_t size, const string &name)
{
	auto o = std::make_shared<Obj>();
	o->kind = k; o->size = size; o->name = name; o->cells.resize(k == OK::Ext ? 0 : size); o->ver = ++verCounter;
	objs.push_back(o);
	return (uint32_t)objs.size() - 1;
}

// ---------------------------------------------------------------- prepared functions
struct PInst
{
	unsigned op; unsigned w = 0; int dst = -1;
	vector<int> opd;                    // >=0 slot, <0 constant index -(i+1)
	const Instruction *I;
	uint64_t aux = 0; unsigned align = 1;
	vector<std::pair<int, uint64_t>> gep;   // (operand, stride)
	int64_t gepConst = 0;
	const Function *callee = nullptr;
	vector<unsigned> idx;
	CmpInst::Predicate pred = CmpInst::BAD_ICMP_PREDICATE;
};
struct PBlock
{
	vector<PInst> phis, insts;           // last inst is the terminator
	vector<int> succ; vector<int> phiPred; // for phis: incoming block order
	bool reachesRet = false; int ipdom = -1; const BasicBlock *bb;
	int loopHeaderOf = -1;
};
struct PLoop { int header; std::set<int> blocks; int parent = -1; };
// input access (object, offset, length) made when every guard trip count is at least one
struct ExtAcc { uint32_t o; N off; uint64_t n; vector<N> g; N base; bool operator==(const ExtAcc &x) const { return o == x.o && off == x.off && n == x.n && g == x.g && base == x.base; } };
struct ExtHash { size_t operator()(const ExtAcc &a) const { uint64_t h = 1; for (uint64_t x : {(uint64_t)a.off->id, a.n, (uint64_t)a.o, (uint64_t)a.g.size()}) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
struct MemoEntry
{
	vector<Val> args; uint64_t sig;
	vector<std::tuple<uint32_t, uint64_t, Cell>> reads;
	vector<ExtAcc> ext;
	vector<std::tuple<uint32_t, uint64_t, Cell>> writes;
	Val ret; bool dead; size_t nobj;
};
struct PFunc
{
	const Function *F; string name, pretty; int nslots = 0;
	vector<PBlock> b; vector<Val> consts; vector<PLoop> loops; std::map<int, int> headerLoop;
	uint64_t cost = 0, self = 0; unsigned runs = 0; unsigned hits = 0, misses = 0;
	vector<MemoEntry> memo;
};
struct LoopCtx { PFunc *f; const PLoop *loop; N cont = nullptr; bool force = false; bool useConstraint = false; int exits = 0; };
struct Frame { PFunc *f; vector<Val> v; LoopCtx *lc = nullptr; const PInst *cur = nullptr; const PLoop *forceExit = nullptr; };
struct StopChain { int bb; StopChain *up; };
struct Flow { enum K { Stop, Ret, Dead } k; int bb = -1; vector<Val> phis; Val ret; };

struct ExtSet
{
	vector<ExtAcc> v; std::unordered_map<ExtAcc, char, ExtHash> s;
	void push_back(const ExtAcc &a) { if (s.emplace(a, 0).second) v.push_back(a); }
	size_t size() const { return v.size(); }
	void truncate(size_t n) { while (v.size() > n) { s.erase(v.back()); v.pop_back(); } }
	const ExtAcc &operator[](size_t i) const { return v[i]; }
};
struct Rec
{
	size_t nobj; bool bad = false;
	std::map<uint32_t, vector<uint8_t>> st;      // per byte: 1 read, 2 written
	vector<std::tuple<uint32_t, uint64_t, Cell>> reads;
	ExtSet ext;
	vector<std::pair<uint32_t, uint64_t>> writes;
};

static bool sameUnder(const VarCond &vc, const Val &a, const Val &b, Val &out);
static void residueOf(N c, const string &where);
struct Exec
{
	Interp &I;
	Exec(Interp &i) : I(i) {}
	Val val(Frame &fr, int o) { return o >= 0 ? fr.v[o] : fr.f->consts[-o - 1]; }
	N num(Frame &fr, int o) { Val v = val(fr, o); if (!v.n) throw Incomplete{"aggregate or missing value used as scalar at " + I.where()}; return v.n; }
	vector<Val> evalPhis(Frame &fr, int bb, int prev);
	Flow exec(Frame &fr, Mem &mem, int bb, vector<Val> phis, StopChain *stop, bool skipGenOnce);
	void inst(Frame &fr, Mem &mem, const PInst &p, bool &dead);
	void residue(N c) { residueOf(c, I.where()); }
	bool irrelevant(Frame &fr, Mem &mem, const VarCond &vc, int tbb, int fbb, int from, StopChain *stop, int &jb, std::vector<Val> &jp);
	Flow fork(Frame &fr, Mem &mem, N cond, int tbb, int fbb, int from, StopChain *stop, bool &joined, int &joinBB, vector<Val> &joinPhis);
	bool generalise(Frame &fr, Mem &mem, int header, vector<Val> &phis, StopChain *stop, Flow &out, bool &finished);
};

static N mergeN(N c, N a, N b) { return a == b ? a : (a && b && a->w == b->w) ? ite(c, a, b) : nullptr; }
static Val mergeVal(N c, const Val &a, const Val &b)
{
	Val r;
	if (a.agg && b.agg && a.agg->size() == b.agg->size())
	{
		r.agg = std::make_shared<vector<Val>>();
		for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(mergeVal(c, (*a.agg)[i], (*b.agg)[i]));
		return r;
	}
	r.n = mergeN(c, a.n, b.n);
	return r;
}

// ---------------------------------------------------------------- Interp basics
Interp::Interp(const Module &m) : M(m), DL(m.getDataLayout())
{
	pw = DL.getPointerSizeInBits(); big = DL.isBigEndian();
	base.alloc(OK::Global, 0, "null");
	base.mut(0).alive = false;
	for (auto &g : m.globals())
	{
		if (!g.getValueType()->isSized()) continue;
		uint64_t sz = DL.getTypeAllocSize(g.getValueType());
		if (sz > (1u << 20)) sz = 0;
		uint32_t id = base.alloc(OK::Global, sz, "global " + demangle(g.getName().str()));
		base.objs[id]->align = std::max<uint64_t>(1, DL.getPreferredAlign(&g).value());
		globalId[&g] = id; if (g.isThreadLocal()) tls.insert(id);
	}
	for (auto &f : m) { uint32_t id = base.alloc(OK::Global, 0, "function " + demangle(f.getName().str())); globalId[&f] = id; }
	for (auto &g : m.globals())
	{
		if (!globalId.count(&g)) continue;
		Obj &o = *base.objs[globalId[&g]];
		if (g.hasInitializer() && o.size) initGlobal(g.getInitializer(), o, 0);
		o.ro = g.isConstant();
	}
}
Interp::~Interp() {}

Cell Interp::makeCell(N v, unsigned i, unsigned total) const { return {v, (uint16_t)(big ? total - 1 - i : i)}; }

void Interp::initGlobal(const Constant *c, Obj &o, uint64_t off)
{
	Type *t = c->getType();
	uint64_t sz = DL.getTypeStoreSize(t);
	if (isa<UndefValue>(c)) return;
	if (c->isNullValue()) { N z = mkConst(8, 0); uint64_t as = DL.getTypeAllocSize(t); for (uint64_t i = 0; i < as && off + i < o.size; ++i) o.cells[off + i] = {z, 0}; return; }
	if (auto *s = dyn_cast<ConstantStruct>(c))
	{
		auto *sl = DL.getStructLayout(s->getType());
		for (unsigned i = 0; i < s->getNumOperands(); ++i) initGlobal(s->getOperand(i), o, off + sl->getElementOffset(i));
		return;
	}
	if (auto *a = dyn_cast<ConstantArray>(c))
	{
		uint64_t es = DL.getTypeAllocSize(a->getType()->getElementType());
		for (unsigned i = 0; i < a->getNumOperands(); ++i) initGlobal(a->getOperand(i), o, off + i * es);
		return;
	}
	if (auto *a = dyn_cast<ConstantDataSequential>(c))
	{
		uint64_t es = DL.getTypeAllocSize(a->getElementType());
		for (unsigned i = 0; i < a->getNumElements(); ++i) initGlobal(a->getElementAsConstant(i), o, off + i * es);
		return;
	}
	Val v;
	try { v = constVal(c); } catch (Incomplete &) { return; }
	if (!v.n) return;
	N n = v.n; if (n->w % 8) n = zext(n, (unsigned)sz * 8);
	for (uint64_t i = 0; i < sz && off + i < o.size; ++i) o.cells[off + i] = makeCell(n, i, sz);
}

N Interp::ptrTo(uint32_t obj, N off)
{
	N a = mkAddr(pw, obj);
	if (!off) return a;
	if (off->w != pw) off = trunc(off, pw);
	return add(a, off);
}

Val Interp::constVal(const Constant *c)
{
	Val r;
	Type *t = c->getType();
	if (auto *ci = dyn_cast<ConstantInt>(c))
	{
		const APInt &a = ci->getValue();
		u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
		r.n = mkConst(a.getBitWidth(), v); return r;
	}
	if (isa<UndefValue>(c))
	{
		if (t->isStructTy() || t->isArrayTy())
		{
			r.agg = std::make_shared<vector<Val>>();
			unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
			for (unsigned i = 0; i < n; ++i) r.agg->push_back(constVal(UndefValue::get(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())));
			return r;
		}
		r.n = mkUndef(DL.getTypeSizeInBits(t)); return r;
	}
	if (isa<ConstantPointerNull>(c)) { r.n = mkConst(pw, 0); return r; }
	if (auto *fp = dyn_cast<ConstantFP>(c)) { double d = fp->getType()->isDoubleTy() ? fp->getValueAPF().convertToDouble() : fp->getType()->isFloatTy() ? fp->getValueAPF().convertToFloat() : 0; r.n = mkFp(d, d); return r; }
	if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = globalId.find(gv); if (it == globalId.end()) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee()); throw Incomplete{"global " + gv->getName().str()}; } r.n = ptrTo(it->second); return r; }
	if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c))
	{
		r.agg = std::make_shared<vector<Val>>();
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; ++i) r.agg->push_back(constVal(c->getAggregateElement(i)));
		return r;
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c))
	{
		if (auto *g = dyn_cast<GEPOperator>(ce))
		{
			APInt off(pw, 0);
			if (g->accumulateConstantOffset(DL, off)) { r.n = add(constVal(cast<Constant>(g->getPointerOperand())).n, mkConst(pw, (u128)(int64_t)off.getSExtValue())); return r; }
		}
		if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast)
		{
			Val v = constVal(ce->getOperand(0)); unsigned w = DL.getTypeSizeInBits(t);
			if (v.n->w > w) v.n = trunc(v.n, w); else if (v.n->w < w) v.n = zext(v.n, w);
			return v;
		}
		if (ce->getOpcode() == Instruction::Sub) { r.n = sub(constVal(ce->getOperand(0)).n, constVal(ce->getOperand(1)).n); return r; }
		if (ce->getOpcode() == Instruction::Trunc) { r.n = trunc(constVal(ce->getOperand(0)).n, DL.getTypeSizeInBits(t)); return r; }
	}
	string s; raw_string_ostream os(s); c->print(os);
	throw Incomplete{"unsupported constant " + s};
}

string Interp::where() const
{
	string s;
	int n = 0;
	for (auto it = stack.rbegin(); it != stack.rend() && n < 6; ++it, ++n)
	{
		Frame *f = *it;
		if (!s.empty()) s += " <- ";
		s += f->f->pretty;
		if (f->cur && f->cur->I)
			if (auto &dl = f->cur->I->getDebugLoc())
			{
				string fn = dl->getFilename().str();
				auto k = fn.rfind('/'); if (k != string::npos) fn = fn.substr(k + 1);
				s += " (" + fn + ":" + std::to_string(dl.getLine()) + ")";
			}
	}
	return s;
}
bool Interp::reachable(N viol)
{
	vector<pair<N, bool>> c = path; if (viol) c.push_back({viol, true});
	for (auto &x : c) if (x.first->junk || x.first->undef) return false;
	if (c.empty()) return true;
	for (unsigned ch = 0; ch < 64; ++ch)
	{
		uint32_t ok = validLanes(ch, 4242);
		for (auto &x : c) { if (!ok) break; auto v = laneVec(x.first, ch, 4242); for (unsigned l = 0; l < LANES; ++l) if ((v[l] & 1) != (uint64_t)x.second) ok &= ~(1u << l); }
		if (ok) return true;
	}
	for (auto &x : c) if (!x.first->var && hasDataCmp(x.first)) return directed(c, nullptr, nullptr, 4242, 6);
	return false;
}
bool Interp::readsUnset(N v)
{
	if (!v->undef || v->junk) return false;
	for (auto &x : path) if (x.first->junk || x.first->undef) return false;
	for (unsigned ch = 0; ch < 64; ++ch)
	{
		uint32_t ok = validLanes(ch, 4242);
		for (auto &x : path) { if (!ok) break; auto w = laneVec(x.first, ch, 4242); for (unsigned l = 0; l < LANES; ++l) if ((w[l] & 1) != (uint64_t)x.second) ok &= ~(1u << l); }
		if (!ok) continue;
		vector<uint64_t> a = laneVec(v, ch, 4242), b; bool diff = false;
		for (int mode : {1, 2, 3}) { undefMode = mode; b = laneVec(v, ch, 4242); for (unsigned l = 0; l < LANES; ++l) diff = diff || ((ok >> l & 1) && (a[l] != b[l] || (v->w > 64 && a[LANES + l] != b[LANES + l]))); }
		undefMode = 0;
		if (diff) return true;
	}
	return false;
}
N Interp::outside(const Obj &o, N off, uint64_t len)
{
	N lo = o.lo->w == off->w ? o.lo : trunc(o.lo, off->w), hi = o.hi->w == off->w ? o.hi : trunc(o.hi, off->w);
	return icmp(Pred::UGT, affPlus(sub(off, lo), len), sub(hi, lo));
}
void Interp::event(const string &kind, const string &msg, N viol, bool sure)
{
	if (quiet || events.size() >= 200) return;
	if (sure && (viol || !path.empty())) sure = reachable(viol);
	events.insert({kind, msg, where(), sure});
}

// ---------------------------------------------------------------- memory
bool Interp::resolve(N ptr, uint32_t &obj, N &off)
{
	if (ptr->op == Op::Atom && ptr->ak == AK::Addr) { obj = (uint32_t)ptr->k; off = mkConst(pw, 0); return true; }
	if (ptr->op == Op::Lin)
	{
		N base = nullptr;
		for (size_t i = 0; i < ptr->a.size(); ++i)
			if (ptr->a[i]->op == Op::Atom && ptr->a[i]->ak == AK::Addr) { if (ptr->co[i] != 1 || base) return false; base = ptr->a[i]; }
		if (!base) return false;
		obj = (uint32_t)base->k; off = sub(ptr, base);
		return true;
	}
	return false;
}
void Interp::noteRead(const Obj &o, uint32_t id, uint64_t off, unsigned n)
{
	for (Rec *r : recs)
	{
		if (id >= r->nobj) continue;
		if (o.ro && o.kind == OK::Global) continue;
		auto &st = r->st[id]; if (st.size() < o.cells.size()) st.resize(o.cells.size());
		for (unsigned i = 0; i < n; ++i) if (!st[off + i]) { st[off + i] = 1; r->reads.push_back({id, off + i, o.cells[off + i]}); }
	}
}
void Interp::wrote(const Mem &m, uint32_t id)
{
	if (trackWrites) writtenObjs.insert(id);
	if (m.get(id).kind == OK::Global && !initDepth && !tls.count(id)) sharedWrites.insert({m.get(id).name, where()});
}
bool Interp::init(Mem &m, vector<string> &problems)
{
	auto *g = M.getGlobalVariable("llvm.global_ctors");
	auto *a = g && g->hasInitializer() ? dyn_cast<ConstantArray>(g->getInitializer()) : nullptr;
	if (!a) return true;
	Facts none; Facts *old = F; if (!F) F = &none;
	++initDepth;
	size_t bad = problems.size();
	for (auto &u : a->operands())
	{
		auto *st = dyn_cast<ConstantStruct>(u.get()); auto *f = st ? dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()) : nullptr;
		if (!f || f->isDeclaration()) continue;
		try { Mem c = m; call(f->getName().str(), {}, c); m = c; }
		catch (Incomplete &e) { problems.push_back("initialisation of static objects: " + e.what); }
		catch (Split &e) { problems.push_back("initialisation of static objects depends on data at " + e.where); }
		catch (SplitMod &e) { problems.push_back("initialisation of static objects depends on data at " + e.where); }
	}
	--initDepth; F = old;
	return problems.size() == bad;
}
void Interp::noteWrite(uint32_t id, uint64_t off, unsigned n)
{
	for (Rec *r : recs)
	{
		if (id >= r->nobj) continue;
		auto &st = r->st[id]; if (st.size() < off + n) st.resize(off + n);
		for (unsigned i = 0; i < n; ++i) if (!(st[off + i] & 2)) { st[off + i] |= 2; r->writes.push_back({id, off + i}); }
	}
}
bool Interp::checkExt(const Obj &o, uint32_t id, N off, uint64_t len)
{
	for (Rec *r : recs) if (id < r->nobj) r->ext.push_back({id, off, len, {}, o.base});
	struct Key { N o, l, h; uint64_t n, sig; bool operator==(const Key &k) const { return o == k.o && l == k.l && h == k.h && n == k.n && sig == k.sig; } };
	struct KH { size_t operator()(const Key &k) const { uint64_t h = k.sig; for (uint64_t x : {(uint64_t)k.o->id, (uint64_t)k.l->id, (uint64_t)k.h->id, k.n}) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
	static std::unordered_map<Key, bool, KH> cache; static uint64_t cacheSig = 0;
	(void)cacheSig; if (cache.size() > 2000000) cache.clear();
	auto ci = cache.find({off, o.lo, o.hi, len, F->sig});
	if (ci != cache.end()) return ci->second;
	Aff a, l, h;
	bool ok = toAffRaw(off, a) && toAffRaw(o.lo, l) && toAffRaw(o.hi, h);
	if (ok) { ok = loBound(affAdd(a, l, -1)) >= 0; Aff e = affAdd(h, a, -1); e.c -= (i128)len; ok = ok && loBound(e) >= 0; }
	cache[{off, o.lo, o.hi, len, F->sig}] = ok;
	return ok;
}
N Interp::cellsToNode(const vector<Cell> &c)
{
	unsigned n = c.size();
	const Cell &f = c[big ? n - 1 : 0];
	if (f.n && f.sig == 0 && f.n->w == n * 8)
	{
		bool all = true;
		for (unsigned i = 0; i < n && all; ++i) { const Cell &x = c[big ? n - 1 - i : i]; all = x.n == f.n && x.sig == i; }
		if (all) return f.n;
	}
	vector<Piece> ps;
	for (unsigned i = 0; i < n; ++i)
	{
		const Cell &x = c[big ? n - 1 - i : i];
		if (!x.n) { ps.push_back({mkUndef(8), 0, 8, 0}); continue; }
		// take the longest run from the same node
		unsigned j = i + 1;
		while (j < n) { const Cell &y = c[big ? n - 1 - j : j]; if (y.n != x.n || y.sig != x.sig + (j - i)) break; ++j; }
		unsigned len = (j - i) * 8;
		if (x.n->aff && !isConst(x.n)) { N s = slice(x.n, x.sig * 8, len); ps.push_back({s, 0, (uint16_t)len, 0}); }
		else ps.push_back({x.n, (uint16_t)(x.sig * 8), (uint16_t)len, 0});
		i = j - 1;
	}
	return cat(ps);
}
N Interp::loadObj(Mem &m, uint32_t id, uint64_t off, unsigned bytes)
{
	const Obj &o = m.get(id);
	noteRead(o, id, off, bytes);
	vector<Cell> c(o.cells.begin() + off, o.cells.begin() + off + bytes);
	return cellsToNode(c);
}

struct TabKey { uint64_t ver; uint64_t off, stride; unsigned bytes; size_t cnt; bool operator<(const TabKey &o) const { return std::tie(ver, off, stride, bytes, cnt) < std::tie(o.ver, o.off, o.stride, o.bytes, o.cnt); } };
static std::map<TabKey, const vector<uint64_t> *> tabCache;

N Interp::tableLoad(Mem &m, uint32_t id, N off, unsigned bytes, bool &ok)
{
	ok = false;
	const Obj &o = m.get(id);
	// off = const + stride * idx, single non-constant addend
	u128 c = 0, stride = 1; N idx = nullptr;
	if (off->op == Op::Lin && off->a.size() == 1) { c = off->k; stride = off->co[0]; idx = off->a[0]; }
	else if (off->op == Op::Cat && !off->ps[0].n && off->ps[0].c == 0) { stride = (u128)1 << off->ps[0].len; idx = slice(off, off->ps[0].len, off->w - off->ps[0].len); }
	else idx = off;
	if (idx->op == Op::Cat && !idx->ps[0].n && idx->ps[0].c == 0) { stride <<= idx->ps[0].len; idx = slice(idx, idx->ps[0].len, idx->w - idx->ps[0].len); }
	if (idx->var) return nullptr;
	if (idx->op == Op::Tab && o.kind != OK::Ext)
	{
		// the offset takes only the values of a table: look each of them up
		auto &t = *idx->tab; bool in = true, allc = bytes <= 8; vector<N> vals;
		for (uint64_t v : t) in = in && c + stride * v + bytes <= o.size;
		if (!in) { { N bad = mkConst(1, 0); vector<uint64_t> ov; for (uint64_t v : t) ov.push_back(c + stride * v + bytes > o.size); bad = mkTabI(1, idx->a[0], tabIntern(ov)); event("bounds", "index beyond " + o.name, bad); } return nullptr; }
		for (uint64_t v : t) { N x = loadObj(m, id, (uint64_t)(c + stride * v), bytes); vals.push_back(x); allc = allc && isConst(x); }
		ok = true;
		if (allc) { vector<uint64_t> r; for (N v : vals) r.push_back((uint64_t)v->k); return mkTabI(bytes * 8, idx->a[0], tabIntern(r)); }
		return mkSel(bytes * 8, idx->a[0], vals);
	}
	u128 mx = maxVal(idx);
	if (mx >= 65536) return nullptr;
	unsigned bits = 1; while (((u128)1 << bits) <= mx) ++bits;
	N y = slice(idx, 0, bits);
	size_t cnt = (size_t)mx + 1;
	if (o.kind == OK::Ext) return nullptr;
	if (c + stride * mx + bytes > o.size)
	{
		event("bounds", "index up to " + std::to_string((unsigned long long)mx) + " exceeds " + o.name, icmp(Pred::UGT, idx, mkConst(idx->w, c + bytes > o.size ? 0 : (o.size - bytes - c) / stride)));
		return nullptr;
	}
	ok = true;
	TabKey k{o.ver, (uint64_t)c, (uint64_t)stride, bytes, cnt};
	auto it = tabCache.find(k);
	if (it != tabCache.end())
	{
		for (size_t i = 0; i < cnt; ++i) noteRead(o, id, (uint64_t)(c + stride * i), bytes);
		return mkTabI(bytes * 8, y, it->second);
	}
	vector<N> vals; bool allc = bytes <= 8;
	for (size_t i = 0; i < cnt; ++i) { N v = loadObj(m, id, (uint64_t)(c + stride * i), bytes); vals.push_back(v); allc = allc && isConst(v); }
	while (vals.size() < ((size_t)1 << bits)) vals.push_back(mkConst(bytes * 8, 0));
	if (allc)
	{
		vector<uint64_t> t; for (N v : vals) t.push_back((uint64_t)v->k);
		const vector<uint64_t> *tp = tabIntern(t);
		tabCache[k] = tp;
		return mkTabI(bytes * 8, y, tp);
	}
	if (getenv("HASHAN_DEBUG")) std::cerr << "select from " << o.name << " size " << o.size << " at " << where() << " c=" << (long)c << " stride=" << (long)stride << " off=" << show(off, 3) << "\n";
	return mkSel(bytes * 8, y, vals);
}

static string offStr(N off) { return show(off, 3); }

N Interp::load(Mem &m, N ptr, unsigned bytes, unsigned align)
{
	uint32_t id; N off;
	if (!resolve(ptr, id, off))
	{
		if (isConst(ptr)) event("null", "read through null pointer");
		else event("wild", "read through unresolved pointer " + show(ptr, 3), nullptr, false);
		return freshJunk(bytes * 8);
	}
	const Obj &o = m.get(id);
	if (!o.alive) { event("lifetime", "read of dead object " + o.name); return freshJunk(bytes * 8); }
	if (o.kind == OK::Ext)
	{
		if (!off->aff) { event("bounds", "data-dependent offset into input: " + offStr(off), outside(o, off, bytes)); return freshJunk(bytes * 8); }
		if (align > 1) event("align", "input read assumes " + std::to_string(align) + "-byte alignment");
		if (!checkExt(o, id, off, bytes)) event("bounds", "input read at offset " + offStr(sub(off, o.lo->w == off->w ? o.lo : trunc(o.lo, off->w))) + " may leave the given range", outside(o, off, bytes));
		vector<N> b;
		for (unsigned i = 0; i < bytes; ++i)
		{
			N pos = affPlus(off, i);
			if (pos->w != 64) { Aff a; toAffRaw(pos, a); pos = fromAff(a, 64); }
			if (o.base) pos = add(o.base, pos);
			b.push_back(mkAtom(AK::Msg, 8, o.msg, pos));
		}
		if (big) std::reverse(b.begin(), b.end());
		return catNodes(b);
	}
	if (!isConst(off))
	{
		bool ok; N r = tableLoad(m, id, off, bytes, ok);
		if (ok) return r;
		if (off->var) throw Incomplete{"read of " + o.name + " at symbolic offset " + offStr(off) + " in " + where()};
		event("bounds", "read of " + o.name + " at unbounded offset " + offStr(off), off->junk || off->undef ? nullptr : icmp(Pred::UGT, off, mkConst(pw, o.size >= bytes ? o.size - bytes : 0)), !(off->junk || off->undef));
		return freshJunk(bytes * 8);
	}
	i128 so = (i128)(off->k >> (pw - 1) ? off->k | ~maskw(pw) : off->k);
	if (so < 0 || so + (i128)bytes > (i128)o.size) { event("bounds", "read of " + std::to_string(bytes) + " bytes at offset " + std::to_string((long long)so) + " of " + o.name + " (" + std::to_string(o.size) + " bytes)"); return freshJunk(bytes * 8); }
	if (align > 1 && ((uint64_t)so % align || o.align % align)) event("align", "read of " + o.name + " at offset " + std::to_string((long long)so) + " assumes alignment " + std::to_string(align));
	if (o.kind == OK::Global && !o.ro) globalReadsMutable.insert(o.name);
	return loadObj(m, id, (uint64_t)so, bytes);
}
void Interp::store(Mem &m, N ptr, N v, unsigned align)
{
	uint32_t id; N off;
	if (v->w % 8) v = zext(v, (v->w + 7) / 8 * 8);
	unsigned bytes = v->w / 8;
	if (!resolve(ptr, id, off))
	{
		if (isConst(ptr)) event("null", "write through null pointer"); else event("wild", "write through unresolved pointer " + show(ptr, 3), nullptr, false);
		return;
	}
	const Obj &o = m.get(id);
	if (!o.alive) { event("lifetime", "write to dead object " + o.name); return; }
	if (o.ro) { event("constwrite", "write to constant object " + o.name); return; }
	if (o.kind == OK::Ext) { event("inputwrite", "write to caller's input buffer"); return; }
	if (!isConst(off))
	{
		if (off->var) throw Incomplete{"write to " + o.name + " at symbolic offset " + offStr(off) + " in " + where()};
		event("bounds", "write to " + o.name + " at unbounded offset " + offStr(off), off->junk || off->undef ? nullptr : icmp(Pred::UGT, off, mkConst(pw, o.size >= bytes ? o.size - bytes : 0)), !(off->junk || off->undef));
		return;
	}
	i128 so = (i128)(off->k >> (pw - 1) ? off->k | ~maskw(pw) : off->k);
	if (so < 0 || so + (i128)bytes > (i128)o.size) { event("bounds", "write of " + std::to_string(bytes) + " bytes at offset " + std::to_string((long long)so) + " of " + o.name + " (" + std::to_string(o.size) + " bytes)"); return; }
	if (align > 1 && ((uint64_t)so % align || o.align % align)) event("align", "write of " + o.name + " at offset " + std::to_string((long long)so) + " assumes alignment " + std::to_string(align));
	wrote(m, id);
	noteWrite(id, (uint64_t)so, bytes);
	Obj &w = m.mut(id);
	for (unsigned i = 0; i < bytes; ++i) w.cells[so + i] = makeCell(v, i, bytes);
}
void Interp::memcopy(Mem &m, N dst, N src, N len, bool mayOverlap)
{
	if (isConst(len, 0)) return;
	if (!isConst(len))
	{
		if (len->var) { Aff a; if (toAff(len, a) && loBound(a) == hiBound(a)) len = mkConst(len->w, (u128)loBound(a)); }
		if (!isConst(len)) { if (len->var) throw Incomplete{"copy of symbolic length " + show(len, 3) + " in " + where()}; event("bounds", "copy of data-dependent length", nullptr, false); return; }
	}
	uint64_t n = (uint64_t)len->k;
	uint32_t di, si; N doff, soff;
	if (!resolve(dst, di, doff) || !resolve(src, si, soff)) { event(isConst(dst) || isConst(src) ? "null" : "wild", "copy through null or unresolved pointer", nullptr, isConst(dst) || isConst(src)); return; }
	const Obj &so = m.get(si); const Obj &d0 = m.get(di);
	if (!so.alive || !d0.alive) { event("lifetime", "copy from or to dead object " + (so.alive ? d0.name : so.name)); return; }
	vector<Cell> c;
	if (so.kind == OK::Ext)
	{
		if (!checkExt(so, si, soff, n)) event("bounds", "input copy of " + std::to_string(n) + " bytes may leave the given range", outside(so, soff, n));
		for (uint64_t i = 0; i < n; ++i) { N pos = affPlus(soff, i); if (pos->w != 64) { Aff a; toAffRaw(pos, a); pos = fromAff(a, 64); } if (so.base) pos = add(so.base, pos); c.push_back({mkAtom(AK::Msg, 8, so.msg, pos), 0}); }
	}
	else
	{
		if (!isConst(soff)) { if (soff->var) throw Incomplete{"copy from symbolic offset of " + so.name + " in " + where()}; event("bounds", "copy from unbounded offset", nullptr, false); return; }
		if (soff->k + n > so.size) { event("bounds", "copy of " + std::to_string(n) + " bytes at offset " + std::to_string((unsigned long long)soff->k) + " reads past the end of " + so.name + " (" + std::to_string(so.size) + ")"); return; }
		if (so.kind == OK::Global && !so.ro) globalReadsMutable.insert(so.name);
		noteRead(so, si, (uint64_t)soff->k, n);
		c.assign(so.cells.begin() + (uint64_t)soff->k, so.cells.begin() + (uint64_t)soff->k + n);
	}
	if (!isConst(doff)) { if (doff->var) throw Incomplete{"copy to symbolic offset of " + d0.name + " in " + where()}; event("bounds", "copy to unbounded offset", nullptr, false); return; }
	if (d0.kind == OK::Ext) { event("inputwrite", "write to caller's input buffer"); return; }
	if (d0.ro) { event("constwrite", "write to constant object " + d0.name); return; }
	if (doff->k + n > d0.size) { event("bounds", "copy of " + std::to_string(n) + " bytes at offset " + std::to_string((unsigned long long)doff->k) + " writes past the end of " + d0.name + " (" + std::to_string(d0.size) + ")"); return; }
	if (!mayOverlap && si == di && n && soff->k < doff->k + n && doff->k < soff->k + n && soff != doff) event("overlap", "memcpy with overlapping ranges in " + d0.name);
	wrote(m, di);
	noteWrite(di, (uint64_t)doff->k, n);
	Obj &w = m.mut(di);
	for (uint64_t i = 0; i < n; ++i) w.cells[(uint64_t)doff->k + i] = c[i];
}
void Interp::memfill(Mem &m, N dst, N v, N len)
{
	if (isConst(len, 0)) return;
	if (!isConst(len)) { Aff a; if (toAff(len, a) && loBound(a) == hiBound(a)) len = mkConst(len->w, (u128)loBound(a)); else { if (len->var) throw Incomplete{"fill of symbolic length in " + where()}; event("bounds", "fill of data-dependent length", nullptr, false); return; } }
	uint64_t n = (uint64_t)len->k; uint32_t di; N doff;
	if (!resolve(dst, di, doff)) { event(isConst(dst) ? "null" : "wild", "fill through null or unresolved pointer", nullptr, isConst(dst)); return; }
	const Obj &d0 = m.get(di);
	if (!d0.alive) { event("lifetime", "fill of dead object " + d0.name); return; }
	if (!isConst(doff)) { if (doff->var) throw Incomplete{"fill at symbolic offset in " + where()}; event("bounds", "fill at unbounded offset", nullptr, false); return; }
	if (d0.kind == OK::Ext || d0.ro) { event("constwrite", "fill of constant object or input"); return; }
	if (doff->k + n > d0.size) { event("bounds", "fill of " + std::to_string(n) + " bytes at offset " + std::to_string((unsigned long long)doff->k) + " writes past the end of " + d0.name + " (" + std::to_string(d0.size) + ")"); return; }
	wrote(m, di);
	noteWrite(di, (uint64_t)doff->k, n);
	Obj &w = m.mut(di);
	for (uint64_t i = 0; i < n; ++i) w.cells[(uint64_t)doff->k + i] = {v, 0};
}

// ---------------------------------------------------------------- preparation
PFunc &Interp::prep(const Function *f)
{
	auto &u = pf[f];
	if (u) return *u;
	u = std::make_unique<PFunc>();
	PFunc &P = *u;
	P.F = f; P.name = f->getName().str(); P.pretty = demangle(P.name);
	{ auto k = P.pretty.find('('); if (k != string::npos && k > 0) P.pretty = P.pretty.substr(0, k); if (P.pretty.size() > 160) P.pretty = P.pretty.substr(0, 160); }
	functionsAnalysed.insert(P.pretty);
	std::map<const Value *, int> slot; std::map<const Constant *, int> cidx; std::map<const BasicBlock *, int> bidx;
	for (auto &a : f->args()) slot[&a] = P.nslots++;
	int bi = 0; for (auto &b : *f) bidx[&b] = bi++;
	for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = P.nslots++;
	auto opd = [&](const Value *v) -> int {
		if (auto *c = dyn_cast<Constant>(v))
		{
			auto it = cidx.find(c);
			if (it == cidx.end()) { P.consts.push_back(constVal(c)); it = cidx.emplace(c, -(int)P.consts.size()).first; }
			return it->second;
		}
		auto it = slot.find(v);
		if (it == slot.end()) throw Incomplete{"operand kind in " + P.pretty};
		return it->second;
	};
	auto width = [&](Type *t) -> unsigned { return t->isIntegerTy() ? t->getIntegerBitWidth() : t->isPointerTy() ? pw : t->isFloatingPointTy() ? 64 : 0; };
	P.b.resize(bi);
	for (auto &b : *f)
	{
		PBlock &pb = P.b[bidx[&b]]; pb.bb = &b;
		for (auto &i : b)
		{
			if (isa<DbgInfoIntrinsic>(i)) continue;
			PInst p; p.op = i.getOpcode(); p.I = &i; p.w = width(i.getType());
			if (!i.getType()->isVoidTy()) p.dst = slot[&i];
			if (auto *phi = dyn_cast<PHINode>(&i))
			{
				for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) { p.opd.push_back(opd(phi->getIncomingValue(k))); p.idx.push_back(bidx[phi->getIncomingBlock(k)]); }
				pb.phis.push_back(p); continue;
			}
			if (auto *g = dyn_cast<GetElementPtrInst>(&i))
			{
				p.opd.push_back(opd(g->getPointerOperand()));
				p.aux = g->isInBounds();
				for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
				{
					Value *ix = gi.getOperand();
					if (StructType *st = gi.getStructTypeOrNull()) { p.gepConst += (int64_t)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
					uint64_t es = gi.getSequentialElementStride(DL);
					if (auto *ci = dyn_cast<ConstantInt>(ix)) p.gepConst += ci->getSExtValue() * (int64_t)es;
					else p.gep.push_back({opd(ix), es});
				}
			}
			else if (auto *br = dyn_cast<BranchInst>(&i))
			{
				if (br->isConditional()) p.opd.push_back(opd(br->getCondition()));
				for (unsigned k = 0; k < br->getNumSuccessors(); ++k) pb.succ.push_back(bidx[br->getSuccessor(k)]);
			}
			else if (auto *sw = dyn_cast<SwitchInst>(&i))
			{
				p.opd.push_back(opd(sw->getCondition()));
				pb.succ.push_back(bidx[sw->getDefaultDest()]);
				for (auto c : sw->cases()) { p.opd.push_back(opd(c.getCaseValue())); pb.succ.push_back(bidx[c.getCaseSuccessor()]); }
			}
			else if (auto *cb = dyn_cast<CallInst>(&i))
			{
				p.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) continue; p.opd.push_back(opd(a)); }
				if (!p.callee) { p.aux = 1; p.opd.push_back(opd(cb->getCalledOperand())); }
			}
			else
			{
				for (auto &o : i.operands()) { if (isa<BasicBlock>(o)) throw Incomplete{"terminator " + string(i.getOpcodeName()) + " in " + P.pretty}; p.opd.push_back(opd(o)); }
				if (auto *x = dyn_cast<ExtractValueInst>(&i)) p.idx.assign(x->idx_begin(), x->idx_end());
				if (auto *x = dyn_cast<InsertValueInst>(&i)) p.idx.assign(x->idx_begin(), x->idx_end());
				if (auto *c = dyn_cast<CmpInst>(&i)) p.pred = c->getPredicate();
				if (auto *l = dyn_cast<LoadInst>(&i)) { p.align = l->getAlign().value(); p.aux = DL.getTypeStoreSize(l->getType()); }
				if (auto *s = dyn_cast<StoreInst>(&i)) { p.align = s->getAlign().value(); p.aux = DL.getTypeStoreSize(s->getValueOperand()->getType()); }
				if (auto *a = dyn_cast<AllocaInst>(&i)) { p.aux = DL.getTypeAllocSize(a->getAllocatedType()); p.align = a->getAlign().value(); }
				if (auto *o = dyn_cast<OverflowingBinaryOperator>(&i)) p.aux = (o->hasNoSignedWrap() ? 1 : 0) | (o->hasNoUnsignedWrap() ? 2 : 0);
			}
			pb.insts.push_back(p);
		}
	}
	// post-dominators over blocks that can still return
	int n = bi;
	for (bool ch = true; ch;) { ch = false; for (int i = 0; i < n; ++i) if (!P.b[i].reachesRet) { bool r = P.b[i].insts.back().op == Instruction::Ret; for (int s : P.b[i].succ) r = r || P.b[s].reachesRet; if (r) { P.b[i].reachesRet = true; ch = true; } } }
	{
		// iterative set-based; functions are small
		vector<std::set<int>> pd(n);
		std::set<int> all; for (int i = 0; i < n; ++i) if (P.b[i].reachesRet) all.insert(i);
		for (int i : all) { if (P.b[i].insts.back().op == Instruction::Ret) pd[i] = {i}; else pd[i] = all; }
		for (bool ch = true; ch;)
		{
			ch = false;
			for (int i = n - 1; i >= 0; --i)
			{
				if (!all.count(i) || P.b[i].insts.back().op == Instruction::Ret) continue;
				std::set<int> r; bool first = true;
				for (int s : P.b[i].succ) if (all.count(s)) { if (first) { r = pd[s]; first = false; } else { std::set<int> t; std::set_intersection(r.begin(), r.end(), pd[s].begin(), pd[s].end(), std::inserter(t, t.begin())); r.swap(t); } }
				r.insert(i);
				if (r != pd[i]) { pd[i] = r; ch = true; }
			}
		}
		for (int i : all)
		{
			// immediate: the strict post-dominator that is post-dominated by all the others
			for (int c : pd[i]) { if (c == i) continue; bool imm = true; for (int d : pd[i]) if (d != i && d != c && !pd[c].count(d)) imm = false; if (imm && pd[c].size() + 1 == pd[i].size()) { P.b[i].ipdom = c; break; } }
		}
	}
	{
		DominatorTree DT(const_cast<Function &>(*f)); LoopInfo LI(DT);
		for (auto *L : LI.getLoopsInPreorder())
		{
			PLoop pl; pl.header = bidx[L->getHeader()];
			for (auto *b : L->blocks()) pl.blocks.insert(bidx[b]);
			P.headerLoop[pl.header] = P.loops.size(); P.loops.push_back(pl);
		}
	}
	return P;
}

// ---------------------------------------------------------------- execution
vector<Val> Exec::evalPhis(Frame &fr, int bb, int prev)
{
	vector<Val> r;
	for (auto &p : fr.f->b[bb].phis)
	{
		bool found = false;
		for (size_t i = 0; i < p.idx.size(); ++i) if ((int)p.idx[i] == prev) { r.push_back(val(fr, p.opd[i])); found = true; break; }
		if (!found) throw Incomplete{"phi without incoming edge in " + fr.f->pretty};
	}
	return r;
}

static void mergeMem(N c, Mem &a, const Mem &b)     // a := ite(c, a, b)
{
	size_t n = std::min(a.objs.size(), b.objs.size());
	for (size_t i = 0; i < n; ++i)
	{
		if (a.objs[i] == b.objs[i]) continue;
		const Obj &x = *a.objs[i]; const Obj &y = *b.objs[i];
		if (x.kind == OK::Ext) continue;
		bool diff = x.alive != y.alive;
		for (size_t j = 0; j < x.cells.size() && j < y.cells.size() && !diff; ++j) diff = x.cells[j] != y.cells[j];
		if (!diff) continue;
		Obj &w = a.mut(i);
		if (x.alive != y.alive) { if (w.kind == OK::Heap) throw Incomplete{"heap object conditionally released"}; w.alive = false; }
		for (size_t j = 0; j < w.cells.size() && j < y.cells.size(); ++j)
		{
			Cell &p = w.cells[j]; const Cell &q = y.cells[j];
			if (p == q) continue;
			if (!p.n || !q.n) { N u = mkUndef(8); p = {ite(c, p.n ? slice(p.n, p.sig * 8, 8) : u, q.n ? slice(q.n, q.sig * 8, 8) : u), 0}; continue; }
			if (p.sig == q.sig && p.n->w == q.n->w) { p.n = ite(c, p.n, q.n); continue; }
			p = {ite(c, slice(p.n, p.sig * 8, 8), slice(q.n, q.sig * 8, 8)), 0};
		}
	}
	for (size_t i = n; i < b.objs.size(); ++i) a.objs.push_back(b.objs[i]);
}

// A condition on the low bits of a partition variable: ask for a case split by residue.
static void residueOf(N c, const string &where)
{
	std::set<N> seen; vector<N> wl{c}; N wv = nullptr; unsigned wb = 0;
	while (!wl.empty())
	{
		N n = wl.back(); wl.pop_back();
		if (!seen.insert(n).second || seen.size() > 200) continue;
		for (auto &q : n->ps)
		{
			if (!q.n) continue;
			Aff a;
			if (q.lo + q.len < 48 && q.n->aff && toAffRaw(q.n, a)) for (auto &t : a.t) if (t.first->op == Op::Atom && t.first->ak == AK::Var)
			{
				if (q.lo + q.len <= 8) throw SplitMod{t.first, (unsigned)(q.lo + q.len), where};
				if (!wv) { wv = t.first; wb = q.lo + q.len; }
			}
			wl.push_back(q.n);
		}
		for (N x : n->a) wl.push_back(x);
	}
	if (wv) { if (getenv("HASHAN_DEBUG")) { std::cerr << "window split on " << show(c, 8) << " facts"; for (auto &r : F->range) std::cerr << " " << r.first << ":" << (long long)r.second.lo << ".." << (long long)r.second.hi; std::cerr << " var " << wv->id << "\n"; } throw SplitMod{wv, wb, where}; }   // too many residues: the driver looks at windows of the variable
}
// Assume a decided outcome of a partition condition for the lifetime of the object.
struct Assume
{
	Facts saved; bool ok = true;
	static Aff negA(const Aff &e) { Aff n = e; for (auto &t : n.t) t.second = -t.second; n.c = -n.c; return n; }
	Assume(const VarCond &vc, bool val) : saved(*F)
	{
		if (vc.eq)
		{
			if (val != vc.neg) { F->ge0.push_back(vc.e); F->ge0.push_back(negA(vc.e)); }
			else ok = false;      // a disequality carries no bound
		}
		else { Aff e = vc.e; if (!val) { e = negA(e); e.c -= 1; } F->ge0.push_back(e); }
		F->resig();
	}
	~Assume() { *F = saved; }
};
// The two values are equal whenever the condition has one of its outcomes: the other one is then the value in both cases.
static bool sameUnder(const VarCond &vc, const Val &a, const Val &b, Val &out)
{
	if (a == b) { out = a; return true; }
	if (!a.n || !b.n || a.n->w != b.n->w) return false;
	Aff d; if (!toAffRaw(sub(a.n, b.n), d)) return false;
	auto zero = [&](bool v) { Assume as(vc, v); return as.ok && loBound(d) == 0 && hiBound(d) == 0; };
	if (zero(true)) { out = b; return true; }
	if (zero(false)) { out = a; return true; }
	return false;
}
// A branch on the partition whose arms lead to the same state (min, max, clamp): both arms are followed to their join.
bool Exec::irrelevant(Frame &fr, Mem &mem, const VarCond &vc, int tbb, int fbb, int from, StopChain *stop, int &jb, vector<Val> &jp)
{
	PFunc &f = *fr.f;
	int J = f.b[from].ipdom;
	if (J < 0) return false;
	for (StopChain *s = stop; s; s = s->up) if (s->bb == J) return false;
	std::set<int> seen; vector<int> wl{tbb, fbb};
	while (!wl.empty())
	{
		int x = wl.back(); wl.pop_back();
		if (x == J || !seen.insert(x).second) continue;
		if (seen.size() > 8 || x == from || f.headerLoop.count(x)) return false;
		for (auto &i : f.b[x].insts) if ((i.op == Instruction::Call && !isa<IntrinsicInst>(i.I)) || i.op == Instruction::Invoke) return false;
		for (int s : f.b[x].succ) wl.push_back(s);
	}
	auto ev = I.events;
	Frame fa = fr, fb = fr; Mem ma = mem, mb = mem;
	vector<Val> pa = evalPhis(fr, tbb, from), pb = evalPhis(fr, fbb, from);
	StopChain sc{J, stop};
	try
	{
		auto arm = [&](Frame &x, Mem &m, int bb, vector<Val> &p, bool val) -> bool {
			if (bb == J) return true;
			struct SG { vector<Frame *> &s; Frame *o; SG(vector<Frame *> &v, Frame *n) : s(v), o(v.back()) { s.back() = n; } ~SG() { s.back() = o; } } g(I.stack, &x);
			Assume as(vc, val);
			Flow fl = exec(x, m, bb, p, &sc, false);
			if (fl.k != Flow::Stop || fl.bb != J) return false;
			p = fl.phis; return true;
		};
		bool ok = arm(fa, ma, tbb, pa, true) && arm(fb, mb, fbb, pb, false) && ma.objs.size() == mem.objs.size() && mb.objs.size() == mem.objs.size();
		vector<Val> ph(pa.size());
		for (size_t i = 0; ok && i < ph.size(); ++i) ok = sameUnder(vc, pa[i], pb[i], ph[i]);
		for (size_t i = 0; ok && i < ma.objs.size(); ++i)
		{
			if (ma.objs[i] == mb.objs[i]) continue;
			if (ma.get(i).alive != mb.get(i).alive) { ok = false; break; }
			for (size_t k = 0; ok && k < ma.get(i).cells.size(); ++k)
			{
				Cell x = ma.get(i).cells[k], y = mb.get(i).cells[k];
				if (x == y) continue;
				if (!x.n || !y.n || x.sig != y.sig) { ok = false; break; }
				Val o; Val vx, vy; vx.n = x.n; vy.n = y.n;
				ok = sameUnder(vc, vx, vy, o);
				if (ok && o.n != x.n) ma.mut(i).cells[k].n = o.n;
			}
		}
		if (!ok) { I.events = ev; return false; }
		mem = ma; jb = J; jp = ph;
		for (size_t i = 0; i < fr.v.size(); ++i) fr.v[i] = fa.v[i] == fb.v[i] ? fa.v[i] : (fr.v[i] == fa.v[i] ? fb.v[i] : fa.v[i]);
		return true;
	}
	catch (Split &) {} catch (NeedLoop &) {} catch (Incomplete &) {}
	I.events = ev;
	return false;
}

Flow Exec::exec(Frame &fr, Mem &mem, int bb, vector<Val> phis, StopChain *stop, bool skipGenOnce)
{
	PFunc &f = *fr.f;
	bool first = true;
	for (;;)
	{
		if (!first)
			for (StopChain *s = stop; s; s = s->up) if (s->bb == bb) { Flow fl; fl.k = Flow::Stop; fl.bb = bb; fl.phis = phis; return fl; }
		first = false;
		auto hl = f.headerLoop.find(bb);
		if (hl != f.headerLoop.end() && !skipGenOnce && I.genLoops.count({f.name, bb}) && !(fr.lc && fr.lc->loop == &f.loops[hl->second]))
		{
			Flow out; bool finished = false;
			generalise(fr, mem, bb, phis, stop, out, finished);
			if (finished) return out;
			skipGenOnce = true;        // continue below at the header with the exit state
			if (out.k == Flow::Stop && out.bb >= 0 && out.bb != bb) { bb = out.bb; phis = out.phis; continue; }
			if (out.k == Flow::Stop && out.bb == bb) { skipGenOnce = false; phis = out.phis; first = true; continue; }
		}
		skipGenOnce = false;
		PBlock &b = f.b[bb];
		for (size_t i = 0; i < b.phis.size(); ++i) fr.v[b.phis[i].dst] = phis[i];
		size_t ni = b.insts.size();
		bool dead = false;
		for (size_t i = 0; i + 1 < ni; ++i)
		{
			fr.cur = &b.insts[i];
			if (++I.steps > I.budget && I.budget) throw Incomplete{"step budget exhausted in " + I.where()};
			inst(fr, mem, b.insts[i], dead);
			if (traceOn) { string t; raw_string_ostream os(t); b.insts[i].I->print(os); if (b.insts[i].dst >= 0 && fr.v[b.insts[i].dst].n) os << "   => " << show(fr.v[b.insts[i].dst].n, 4); errs() << t << "\n"; }
			if (dead) { Flow fl; fl.k = Flow::Dead; return fl; }
		}
		const PInst &t = b.insts.back();
		if (I.deadline && (++I.tick & 255) == 0) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); if (ts.tv_sec > I.deadline) { I.tick = 255; throw Incomplete{"analysis of this instance did not finish in the time allowed"}; } }
		fr.cur = &t; ++I.steps; f.self += ni;
		int next = -1;
		switch (t.op)
		{
		case Instruction::Ret: { Flow fl; fl.k = Flow::Ret; if (!t.opd.empty()) fl.ret = val(fr, t.opd[0]); return fl; }
		case Instruction::Unreachable: { Flow fl; fl.k = Flow::Dead; return fl; }
		case Instruction::Br:
			if (b.succ.size() == 1) { next = b.succ[0]; break; }
			{
				N c = num(fr, t.opd[0]);
				if (isConst(c)) { next = c->k ? b.succ[0] : b.succ[1]; break; }
				if (b.succ[0] == b.succ[1]) { next = b.succ[0]; break; }
				if (c->undef) I.event("uninit", "branch depends on an uninitialised value", nullptr, I.readsUnset(c));
				// loop being summarised
				if (c->var)
				{
					if (fr.lc && fr.lc->f == &f && fr.lc->loop->blocks.count(bb))
					{
						bool in0 = fr.lc->loop->blocks.count(b.succ[0]), in1 = fr.lc->loop->blocks.count(b.succ[1]);
						if (in0 != in1 && f.b[b.succ[0]].reachesRet && f.b[b.succ[1]].reachesRet)
						{
							fr.lc->cont = in0 ? c : notN(c); ++fr.lc->exits;
							VarCond vc = varCond(fr.lc->cont);
							if (vc.ok && !vc.eq) { F->ge0.push_back(vc.e); F->resig(); }
							next = in0 ? b.succ[0] : b.succ[1];
							break;
						}
					}
					if (fr.forceExit && fr.forceExit->blocks.count(bb))
					{
						bool in0 = fr.forceExit->blocks.count(b.succ[0]), in1 = fr.forceExit->blocks.count(b.succ[1]);
						if (in0 != in1) { next = in0 ? b.succ[1] : b.succ[0]; fr.forceExit = nullptr; break; }
					}
					// innermost loop this block exits
					const PLoop *ex = nullptr;
					for (auto &L : f.loops) if (L.blocks.count(bb) && (L.blocks.count(b.succ[0]) != L.blocks.count(b.succ[1])) && f.b[b.succ[0]].reachesRet && f.b[b.succ[1]].reachesRet) if (!ex || L.blocks.size() < ex->blocks.size()) ex = &L;
					if (ex && !I.genLoops.count({f.name, ex->header})) throw NeedLoop{f.name, ex->header};
					VarCond vc = varCond(c);
					bool d0 = !f.b[b.succ[0]].reachesRet, d1 = !f.b[b.succ[1]].reachesRet;
					if (fr.lc && I.quiet && d0 != d1) { next = d0 ? b.succ[1] : b.succ[0]; break; }
					if (vc.ok)
					{
						int jb; vector<Val> jp;
						if (d0 == d1 && irrelevant(fr, mem, vc, b.succ[0], b.succ[1], bb, stop, jb, jp)) { bb = jb; phis = jp; continue; }
						throw Split{vc.e, vc.eq, I.where()};
					}
					if (d0 != d1) { I.event("contract", "cannot exclude failing check " + show(c, 4), d0 ? c : notN(c)); next = d0 ? b.succ[1] : b.succ[0]; break; }
					if (mentionsAddr(c)) goto choose;      // decided by where an object lies: both ways are followed
					residue(c);
					throw Incomplete{"undecided branch on " + show(c, 5) + " in " + I.where()};
				}
				choose:
				bool joined; int jb; vector<Val> jp;
				Flow fl = fork(fr, mem, c, b.succ[0], b.succ[1], bb, stop, joined, jb, jp);
				if (!joined) return fl;
				bb = jb; phis = jp;
				continue;
			}
		case Instruction::Switch:
		{
			N c = num(fr, t.opd[0]);
			if (isConst(c))
			{
				next = b.succ[0];
				for (size_t i = 1; i < t.opd.size(); ++i) if (num(fr, t.opd[i]) == c) next = b.succ[i];
				break;
			}
			if (c->var) { VarCond vc = varCond(icmp(Pred::EQ, c, num(fr, t.opd[1]))); if (vc.ok) throw Split{vc.e, true, I.where()}; }
			if (c->var) residue(c);
			throw Incomplete{"data-dependent switch in " + I.where()};
		}
		default: throw Incomplete{string("terminator ") + t.I->getOpcodeName() + " in " + f.pretty};
		}
		phis = evalPhis(fr, next, bb);
		bb = next;
	}
}

Flow Exec::fork(Frame &fr, Mem &mem, N cond, int tbb, int fbb, int from, StopChain *stop, bool &joined, int &joinBB, vector<Val> &joinPhis)
{
	PFunc &f = *fr.f;
	joined = false;
	bool rt = f.b[tbb].reachesRet, rf = f.b[fbb].reachesRet;
	if (rt != rf)
	{
		I.event("contract", "cannot exclude failing check on " + show(cond, 4), rt ? notN(cond) : cond);
		joined = true; joinBB = rt ? tbb : fbb; joinPhis = evalPhis(fr, joinBB, from);
		return Flow();
	}
	int J = f.b[from].ipdom;
	Frame fa = fr, fb = fr; Mem ma = mem, mb = mem;
	vector<Val> pa = evalPhis(fr, tbb, from), pb = evalPhis(fr, fbb, from);
	// an arm that jumps straight to the join or to an enclosing stop does no work
	StopChain sc{J, stop};
	StopChain *sp = J >= 0 ? &sc : stop;
	auto arm = [&](Frame &x, Mem &m, int bb, vector<Val> &p) -> Flow {
		for (StopChain *s = sp; s; s = s->up) if (s->bb == bb) { Flow fl; fl.k = Flow::Stop; fl.bb = bb; fl.phis = p; return fl; }
		struct SG { vector<Frame *> &s; Frame *o; SG(vector<Frame *> &v, Frame *n) : s(v), o(v.back()) { s.back() = n; } ~SG() { s.back() = o; } } g(I.stack, &x);
		return exec(x, m, bb, p, sp, false);
	};
	int &nest = I.forkNest[{&f, from}];
	struct NG { int &n; NG(int &x) : n(x) { ++n; } ~NG() { --n; } } ng(nest);
	if (nest > 300) throw Incomplete{"loop exit depends on data in " + I.where()};
	struct PG { vector<pair<N, bool>> &v; PG(vector<pair<N, bool>> &x, N c, bool b) : v(x) { v.push_back({c, b}); } ~PG() { v.pop_back(); } };
	Flow A, B;
	{ PG g(I.path, cond, true); A = arm(fa, ma, tbb, pa); }
	size_t n0 = mem.objs.size();
	{ PG g(I.path, cond, false); B = arm(fb, mb, fbb, pb); }
	// new objects of the two arms share numbers; when they are not of one kind the second arm is given numbers of its own
	bool clash = false;
	if (A.k != Flow::Dead && B.k != Flow::Dead) for (size_t i = n0; i < ma.objs.size() && i < mb.objs.size(); ++i) { const Obj &x = *ma.objs[i], &y = *mb.objs[i]; clash = clash || x.kind != y.kind || x.size != y.size || x.cells.size() != y.cells.size() || (x.alive != y.alive && x.kind == OK::Heap); }
	if (clash)
	{
		fb = fr; mb = mem; for (size_t i = n0; i < ma.objs.size(); ++i) mb.objs.push_back(ma.objs[i]);
		PG g(I.path, cond, false); pb = evalPhis(fr, fbb, from); B = arm(fb, mb, fbb, pb);
	}
	if (A.k == Flow::Dead && B.k == Flow::Dead) { Flow fl; fl.k = Flow::Dead; return fl; }
	if (A.k == Flow::Dead || B.k == Flow::Dead)
	{
		I.event("contract", "cannot exclude failing path on " + show(cond, 4), A.k == Flow::Dead ? cond : notN(cond));
		Flow &X = A.k == Flow::Dead ? B : A; Frame &fx = A.k == Flow::Dead ? fb : fa; Mem &mx = A.k == Flow::Dead ? mb : ma;
		fr.v = fx.v; mem = mx;
		if (X.k == Flow::Stop && X.bb == J) { joined = true; joinBB = J; joinPhis = X.phis; return X; }
		return X;
	}
	if (A.k != B.k || (A.k == Flow::Stop && A.bb != B.bb)) throw Incomplete{"unstructured join in " + f.pretty};
	mergeMem(cond, ma, mb);
	mem = ma;
	if (A.k == Flow::Ret) { Flow fl; fl.k = Flow::Ret; fl.ret = (A.ret.n || A.ret.agg) ? mergeVal(cond, A.ret, B.ret) : Val(); return fl; }
	vector<Val> ph;
	for (size_t i = 0; i < A.phis.size(); ++i) ph.push_back(mergeVal(cond, A.phis[i], B.phis[i]));
	for (size_t i = 0; i < fr.v.size(); ++i) fr.v[i] = fa.v[i] == fb.v[i] ? fa.v[i] : (fr.v[i] == fa.v[i] ? fb.v[i] : fa.v[i]);
	if (A.bb == J) { joined = true; joinBB = J; joinPhis = ph; return Flow(); }
	Flow fl; fl.k = Flow::Stop; fl.bb = A.bb; fl.phis = ph; return fl;
}

// ---------------------------------------------------------------- loop summarisation
void Interp::registerChain(N P)
{
	if (!chain.on || !chain.registered.insert(P).second) return;
	// H_i(P) -> terms after e steps
	vector<N> cur; for (size_t i = 0; i < chain.step.size(); ++i) cur.push_back(mkAtom(AK::Chain, chain.width[i], i, P));
	N pos = P;
	for (unsigned e = 1; e <= chain.maxE; ++e)
	{
		Subst S;
		S.atom = [&](N a) -> N {
			if (a == chain.pVar) return pos;
			if (a->ak == AK::Msg) { N q = S(a->a[0]); return mkAtom(AK::Msg, a->w, a->k, q); }
			if (a->ak == AK::Chain) { if (a->a[0] == chain.pVar) return cur[(size_t)a->k]; N q = S(a->a[0]); return mkAtom(AK::Chain, a->w, a->k, q); }
			return a;
		};
		vector<N> nx; for (N s : chain.step) nx.push_back(S(s));
		pos = affPlus(pos, 1);
		for (size_t i = 0; i < nx.size(); ++i) if (!isConst(nx[i])) chain.fold.emplace(nx[i], mkAtom(AK::Chain, chain.width[i], i, pos));
		cur = nx;
	}
}
N Interp::foldNode(N n)
{
	if (!chain.on || !n) return n;
	auto it = chain.fold.find(n);
	if (it == chain.fold.end()) return n;
	registerChain(it->second->a[0]);
	return it->second;
}

static N genValue(Interp &I, N v0, N v1, N j)
{
	if (v0 == v1) return v0;
	if (!v0 || !v1 || v0->w != v1->w) return nullptr;
	if (v0->aff && v1->aff)
	{
		N d = sub(v1, v0);
		if (isConst(d))
		{
			Aff a; toAffRaw(v0, a);
			i128 s = (i128)(d->k >> (d->w - 1) ? (d->k | ~maskw(d->w)) : d->k);
			a.t.push_back({j, s});
			return fromAff(a, v0->w);
		}
		return nullptr;
	}
	if (v0->op == Op::Atom && v0->ak == AK::Chain)
	{
		I.registerChain(v0->a[0]);
		N f = I.foldNode(v1);
		if (f->op == Op::Atom && f->ak == AK::Chain && f->k == v0->k)
		{
			N d = sub(f->a[0], v0->a[0]);
			if (isConst(d))
			{
				Aff a; toAffRaw(v0->a[0], a);
				a.t.push_back({j, (i128)d->k});
				return mkAtom(AK::Chain, v0->w, v0->k, fromAff(a, 64));
			}
		}
	}
	return nullptr;
}

static int loopVarCounter = 0;

bool Exec::generalise(Frame &fr, Mem &mem, int header, vector<Val> &phis, StopChain *stop, Flow &out, bool &finished)
{
	PFunc &f = *fr.f;
	const PLoop *L = &f.loops[f.headerLoop[header]];
	finished = false;
	// fold the entry state
	if (I.chain.on)
	{
		for (auto &v : phis) if (v.n) v.n = I.foldNode(v.n);
		for (size_t i = 0; i < mem.objs.size(); ++i)
		{
			bool need = false; const Obj &o = mem.get(i);
			if (o.kind == OK::Ext || (o.kind == OK::Global && o.ro)) continue;
			for (auto &c : o.cells) if (c.n && !isConst(c.n) && I.chain.fold.count(c.n)) { need = true; break; }
			if (!need) continue;
			Obj &w = mem.mut(i);
			for (auto &c : w.cells) if (c.n) c.n = I.foldNode(c.n);
		}
	}
	struct Restore { Interp &I; bool q; Facts *F0; Frame *top; Facts save; vector<Rec *> recs; Restore(Interp &i) : I(i), q(i.quiet), F0(F), top(i.stack.back()), save(*F), recs(i.recs) {} ~Restore() { I.quiet = q; *F0 = save; I.stack.back() = top; } };
	StopChain sc{header, stop};
	LoopCtx ctx{&f, L};
	// ---- trial iteration
	Frame f1 = fr; Mem m1 = mem; Flow t;
	{
		Restore R(I);
		f1.lc = &ctx; I.stack.back() = &f1;
		bool q0 = I.quiet; std::set<Event> ev0 = I.events; vector<size_t> rd; 
		vector<size_t> tm; for (Rec *r : I.recs) tm.push_back(r->ext.size());
		t = exec(f1, m1, header, phis, &sc, true);
		if (ctx.cont) for (size_t r = 0; r < I.recs.size(); ++r) I.recs[r]->ext.truncate(tm[r]);
		if (!ctx.cont)
		{
			f1.lc = fr.lc;
			fr.v = f1.v; mem = m1; out = t;
			if (t.k == Flow::Stop && t.bb == header) { return true; }          // decided: plain iteration
			if (t.k == Flow::Stop) { // reached an enclosing stop
				finished = true; return true; }
			finished = true; return true;
		}
		I.events = ev0; (void)q0;
	}
	if (t.k != Flow::Stop || t.bb != header) throw Incomplete{"loop does not return to its header in " + f.pretty};
	if (m1.objs.size() != mem.objs.size()) throw Incomplete{"allocation inside a loop of symbolic length in " + f.pretty};
	if (ctx.exits > 1) throw Incomplete{"several symbolic exits in a loop of " + f.pretty};

	N j = mkVar("j" + std::to_string(loopVarCounter % 6)); ++loopVarCounter;
	struct LV { ~LV() { --loopVarCounter; } } lv;
	N jp1 = affPlus(j, 1);
	Facts saved = *F;
	struct FR { Facts s; FR(Facts &x) : s(x) {} ~FR() { *F = s; } } fres(saved);
	F->range[j->id] = {0, (i128)1 << (I.pw == 32 ? 31 : 50)}; F->resig();

	// ---- classification
	auto junkLike = [&](N n) { return freshJunk(n ? n->w : 8); };
	vector<Val> gp; vector<bool> pj;
	for (size_t i = 0; i < phis.size(); ++i)
	{
		Val g; 
		if (phis[i] == t.phis[i]) g = phis[i];
		else if (phis[i].n && t.phis[i].n) g.n = genValue(I, phis[i].n, t.phis[i].n, j);
		bool bad = !g.n && !g.agg;
		if (bad) { if (!phis[i].n) throw Incomplete{"aggregate loop value"}; g.n = junkLike(phis[i].n); }
		gp.push_back(g); pj.push_back(bad);
	}
	Mem gm = mem; std::set<std::pair<uint32_t, uint64_t>> mj;     // junk cells
	auto demote = [&](uint32_t o, uint64_t k, const Cell &was) { mj.insert({o, k}); Obj &w = gm.mut(o); w.cells[k] = was.n ? Cell{freshJunk(8), 0} : Cell(); };
	for (size_t i = 0; i < mem.objs.size(); ++i)
	{
		if (mem.objs[i] == m1.objs[i]) continue;
		const Obj &x = mem.get(i); const Obj &y = m1.get(i);
		if (x.kind == OK::Ext) continue;
		for (size_t k = 0; k < x.cells.size(); ++k)
		{
			if (x.cells[k] == y.cells[k]) continue;
			N g = nullptr;
			if (x.cells[k].n && y.cells[k].n && x.cells[k].sig == y.cells[k].sig) g = genValue(I, x.cells[k].n, y.cells[k].n, j);
			if (!g && traceGen) errs() << "trial " << y.name << "+" << k << " from " << (x.cells[k].n ? show(x.cells[k].n, 3) : "-") << " to " << (y.cells[k].n ? show(y.cells[k].n, 6) : "-") << "\n";
			if (g) gm.mut(i).cells[k].n = g; else demote(i, k, x.cells[k].n && y.cells[k].n ? x.cells[k] : Cell());
		}
	}
	// ---- inductive check
	N T = nullptr; bool stable = false; Aff Taff; bool latch = false;
	for (int round = 0; round < 12 && !stable; ++round)
	{
		bool checked = T != nullptr;
		Facts fs = *F;
		LoopCtx c2{&f, L};
		Frame f2 = fr; Mem m2 = gm; Flow t2;
		vector<size_t> extMark; for (Rec *r : I.recs) extMark.push_back(r->ext.size());
		{
			Restore R(I);
			if (T) { Aff e = Taff; e.c -= 1; Aff J; J.t.push_back({j, 1}); F->ge0.push_back(affAdd(e, J, -1)); F->resig(); }
			f2.lc = &c2; I.stack.back() = &f2;
			I.quiet = I.quiet || !checked;
			t2 = exec(f2, m2, header, gp, &sc, true);
		}
		*F = fs;
		if (t2.k != Flow::Stop || t2.bb != header) throw Incomplete{"loop iteration does not return to its header in " + f.pretty};
		if (!c2.cont && !T) throw Incomplete{"loop exit condition decided in generic iteration of " + f.pretty};
		if (!T)
		{
			VarCond vc = varCond(c2.cont); bool raw = false; Aff side[2]; i128 slo = 0, shi = 0;
			if (!vc.ok) { vc = varCondRaw(c2.cont, side, slo, shi); raw = vc.ok; }
			if (!vc.ok) throw Incomplete{"loop exit condition not affine: " + show(c2.cont, 5) + " in " + f.pretty};
			i128 cj = 0; Aff e0; e0.c = vc.e.c;
			for (auto &u : vc.e.t) if (u.first == j) cj = u.second; else e0.t.push_back(u);
			if (vc.eq)
			{
				// continue while e0 + cj*j != 0
				if (!vc.neg || cj == 0) throw Incomplete{"loop exit form in " + f.pretty};
				if (cj > 0) { for (auto &u : e0.t) u.second = -u.second; e0.c = -e0.c; } else cj = -cj;
				// e0 now equals cj * T
				Aff q;
				for (auto &u : e0.t) { if (u.second % cj) throw Incomplete{"loop stride does not divide its bound in " + f.pretty}; q.t.push_back({u.first, u.second / cj}); }
				if (e0.c % cj) throw Incomplete{"loop stride does not divide its bound in " + f.pretty};
				q.c = e0.c / cj; Taff = q;
			}
			else
			{
				if (cj >= 0) throw Incomplete{"loop exit condition does not progress in " + f.pretty};
				i128 d = -cj;
				// T = floor(e0/d)+1
				Aff q, rem;
				for (auto &u : e0.t) { i128 a = floordiv(u.second, d), b = u.second - a * d; if (b == 0) q.t.push_back({u.first, a}); else rem.t.push_back(u); }
				q.c = floordiv(e0.c, d); rem.c = e0.c - q.c * d;
				i128 lo = loBound(rem), hi = hiBound(rem);
				if (floordiv(lo, d) != floordiv(hi, d)) throw Split{[&] { Aff s = rem; s.c -= (floordiv(hi, d)) * d; return s; }(), false, I.where()};
				q.c += floordiv(lo, d) + 1; Taff = q;
			}
			if (loBound(Taff) < 0) { Aff s = Taff; throw Split{s, false, I.where()}; }
			if (raw)
			{
				// nothing wraps up to and including the test that ends the loop
				Facts save = *F; Aff J; J.t.push_back({j, 1}); F->ge0.push_back(affAdd(Taff, J, -1)); F->resig();
				bool inside = true; for (Aff &x : side) inside = inside && loBound(x) >= slo && hiBound(x) < shi;
				*F = save;
				if (!inside) throw Incomplete{"loop exit condition not affine: " + show(c2.cont, 5) + " in " + f.pretty};
			}
			T = fromAff(Taff, 64);
			I.recs = I.recs;
			for (size_t r = 0; r < I.recs.size(); ++r) I.recs[r]->ext.truncate(extMark[r]);
		}
		else
		{
			// input accesses recorded during this run: keep the extreme iterations
			for (size_t r = 0; r < I.recs.size(); ++r)
			{
				auto &ex = I.recs[r]->ext; vector<ExtAcc> add_;
				N last = affPlus(T, -1);
				for (size_t k = extMark[r]; k < ex.size(); ++k)
					for (N at : {mkConst(64, 0), last})
					{
						Subst S; S.atom = [&](N a) -> N { return a == j ? at : a; };
						ExtAcc x = ex[k]; x.off = S(x.off); for (auto &g : x.g) g = S(g); x.g.push_back(T); add_.push_back(x);
					}
				ex.truncate(extMark[r]); for (auto &x : add_) ex.push_back(x);
			}
		}
		// compare with the state at j+1
		Subst S;
		S.atom = [&](N a) -> N {
			if (a == j) return jp1;
			if ((a->ak == AK::Chain || a->ak == AK::Msg) && !a->a.empty()) return mkAtom(a->ak, a->w, a->k, S(a->a[0]));
			return a;
		};
		bool changed = false;
		for (size_t i = 0; i < gp.size(); ++i)
		{
			if (pj[i] || gp[i] == t2.phis[i]) { if (pj[i]) continue; if (gp[i].n && S(gp[i].n) == gp[i].n) continue; if (!gp[i].n) continue; }
			if (gp[i].n && gp[i].n->op == Op::Atom && gp[i].n->ak == AK::Chain) I.registerChain(gp[i].n->a[0]);
			N want = gp[i].n ? S(gp[i].n) : nullptr;
			N got = t2.phis[i].n ? I.foldNode(t2.phis[i].n) : nullptr;
			if (want && got && want == got) continue;
			if (!gp[i].n) throw Incomplete{"aggregate loop value"};
			pj[i] = true; gp[i] = Val(); gp[i].n = freshJunk(phis[i].n->w); changed = true;
		}
		for (size_t i = 0; i < gm.objs.size() && i < m2.objs.size(); ++i)
		{
			if (gm.get(i).kind == OK::Ext) continue;
			const Obj &y = m2.get(i);
			bool sameObj = gm.objs[i] == m2.objs[i];
			if (sameObj)
			{
				// unchanged by the iteration: fine unless it mentions j
				bool mentions = false;
				if (mem.objs[i] != gm.objs[i]) mentions = true;
				if (!mentions) continue;
			}
			for (size_t k = 0; k < y.cells.size(); ++k)
			{
				if (mj.count({(uint32_t)i, k})) continue;
				const Cell &g = gm.get(i).cells[k]; const Cell &v = y.cells[k];
				if (!g.n && !v.n) continue;
				bool ok = g.n && v.n && g.sig == v.sig;
				if (ok)
				{
					if (g.n->op == Op::Atom && g.n->ak == AK::Chain) I.registerChain(g.n->a[0]);
					ok = (isConst(g.n) ? g.n : S(g.n)) == I.foldNode(v.n);
				}
				if (ok) continue;
				if (traceGen) errs() << "demote " << y.name << "+" << k << " gen " << (g.n ? show(g.n, 3) : "-") << " got " << (v.n ? show(I.foldNode(v.n), 6) : "-") << "\n";
				demote(i, k, g.n && v.n ? g : Cell()); changed = true;
			}
		}
		stable = checked && !changed;
	}
	if (!stable) throw Incomplete{"loop invariant not found in " + f.pretty};
	(void)latch;
	// ---- exit state: j := T
	{
		Subst S;
		S.atom = [&](N a) -> N {
			if (a == j) return T;
			if ((a->ak == AK::Chain || a->ak == AK::Msg) && !a->a.empty()) return mkAtom(a->ak, a->w, a->k, S(a->a[0]));
			return a;
		};
		*F = saved;
		for (auto &v : gp) if (v.n) v.n = S(v.n);
		for (size_t i = 0; i < gm.objs.size(); ++i)
		{
			if (gm.objs[i] == mem.objs[i] || gm.get(i).kind == OK::Ext) continue;
			Obj &w = gm.mut(i);
			for (size_t k = 0; k < w.cells.size(); ++k)
			{
				auto &c = w.cells[k];
				if (c.n && !isConst(c.n)) c.n = S(c.n);
				if (c != mem.get(i).cells[k]) I.noteWrite(i, k, 1);
			}
		}
		phis = gp; mem = gm;
		fr.forceExit = L;
		out.k = Flow::Dead; out.bb = -1;   // marker: continue at the header
	}
	return true;
}

// ---------------------------------------------------------------- instructions
static Pred cvt(CmpInst::Predicate p)
{
	switch (p)
	{
	case CmpInst::ICMP_EQ: return Pred::EQ; case CmpInst::ICMP_NE: return Pred::NE;
	case CmpInst::ICMP_ULT: return Pred::ULT; case CmpInst::ICMP_ULE: return Pred::ULE; case CmpInst::ICMP_UGT: return Pred::UGT; case CmpInst::ICMP_UGE: return Pred::UGE;
	case CmpInst::ICMP_SLT: return Pred::SLT; case CmpInst::ICMP_SLE: return Pred::SLE; case CmpInst::ICMP_SGT: return Pred::SGT; case CmpInst::ICMP_SGE: return Pred::SGE;
	default: return Pred::EQ;
	}
}
static i128 sgnv(u128 v, unsigned w) { return (v >> (w - 1)) & 1 ? (i128)(v | ~maskw(w)) : (i128)v; }

static N overflowCond(unsigned op, N a, N b, unsigned w)
{
	N x = sext(a, 2 * w > 128 ? 128 : 2 * w), y = sext(b, 2 * w > 128 ? 128 : 2 * w), r, n;
	if (op == Instruction::Add) { r = add(x, y); n = add(a, b); } else if (op == Instruction::Sub) { r = sub(x, y); n = sub(a, b); } else { r = mul(x, y); n = mul(a, b); }
	return icmp(Pred::NE, r, sext(n, r->w));
}
static bool signedFits(unsigned op, N a, N b, unsigned w)
{
	i128 lim = (i128)1 << (w - 1);
	auto rng = [&](N n, i128 &lo, i128 &hi) {
		if (isConst(n)) { lo = hi = sgnv(n->k, w); return; }
		Aff x; if (n->aff && toAffRaw(n, x)) { lo = loBound(x); hi = hiBound(x); if (lo >= -lim && hi < lim) return; }
		if (n->op == Op::Tab) { lo = lim - 1; hi = -lim; for (auto v : *n->tab) { i128 x = sgnv(v, w); lo = std::min(lo, x); hi = std::max(hi, x); } return; }
		u128 m = maxVal(n);
		if (!(m >> (w - 1))) { lo = 0; hi = (i128)m; return; }
		lo = -lim; hi = lim - 1;
	};
	i128 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh);
	i128 lo, hi;
	if (op == Instruction::Add)
	{
		// affine sums may be tighter than the sum of ranges
		Aff x, y; if (a->aff && b->aff && toAffRaw(a, x) && toAffRaw(b, y)) { Aff e = affAdd(x, y, 1); lo = loBound(e); hi = hiBound(e); if (lo >= -lim && hi < lim) return true; }
		lo = al + bl; hi = ah + bh;
	}
	else if (op == Instruction::Sub)
	{
		Aff x, y; if (a->aff && b->aff && toAffRaw(a, x) && toAffRaw(b, y)) { Aff e = affAdd(x, y, -1); lo = loBound(e); hi = hiBound(e); if (lo >= -lim && hi < lim) return true; }
		lo = al - bh; hi = ah - bl;
	}
	else if (op == Instruction::Mul)
	{
		if (w > 63) { long double m = (long double)std::max(-al, ah) * (long double)std::max(-bl, bh); return m < (long double)lim; }
		i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = hi = p[0]; for (auto q : p) { lo = std::min(lo, q); hi = std::max(hi, q); }
	}
	else return true;
	return lo >= -lim && hi < lim;
}

void Exec::inst(Frame &fr, Mem &mem, const PInst &p, bool &dead)
{
	auto set = [&](N n) { Val v; v.n = n; fr.v[p.dst] = v; };
	switch (p.op)
	{
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
	{
		N a = num(fr, p.opd[0]), b = num(fr, p.opd[1]);
		if ((p.aux & 1) && !I.quiet && !signedFits(p.op, a, b, p.w)) I.event("overflow", "signed arithmetic may overflow: " + show(a, 3) + (p.op == Instruction::Add ? " + " : p.op == Instruction::Sub ? " - " : " * ") + show(b, 3), overflowCond(p.op, a, b, p.w));
		set(p.op == Instruction::Add ? add(a, b) : p.op == Instruction::Sub ? sub(a, b) : mul(a, b));
		return;
	}
	case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
	{
		N a = num(fr, p.opd[0]), b = num(fr, p.opd[1]);
		if (isConst(b, 0) || (!isConst(b) && !(b->aff && [&] { Aff x; return toAff(b, x) && loBound(x) > 0; }()))) I.event("div", "division by zero possible", icmp(Pred::EQ, b, mkConst(b->w, 0)));
		set(p.op == Instruction::UDiv ? udivN(a, b) : p.op == Instruction::URem ? uremN(a, b) : p.op == Instruction::SDiv ? sdivN(a, b) : sremN(a, b));
		return;
	}
	case Instruction::And: set(andN(num(fr, p.opd[0]), num(fr, p.opd[1]))); return;
	case Instruction::Or: set(orN(num(fr, p.opd[0]), num(fr, p.opd[1]))); return;
	case Instruction::Xor: set(xorN(num(fr, p.opd[0]), num(fr, p.opd[1]))); return;
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
	{
		N a = num(fr, p.opd[0]), s = num(fr, p.opd[1]);
		if (!isConst(s) && s->aff) { Aff x; if (toAff(s, x) && loBound(x) == hiBound(x)) s = mkConst(s->w, (u128)loBound(x)); }
		if (maxVal(s) >= p.w) I.event("shift", "shift amount " + show(s, 3) + " may reach the width " + std::to_string(p.w), icmp(Pred::UGE, s, mkConst(s->w, p.w)));
		set(p.op == Instruction::Shl ? shlN(a, s) : p.op == Instruction::LShr ? lshrN(a, s) : ashrN(a, s));
		return;
	}
	case Instruction::ICmp:
	{
		N a = num(fr, p.opd[0]), b = num(fr, p.opd[1]);
		// comparisons of addresses of distinct live objects
		if ((p.pred == CmpInst::ICMP_EQ || p.pred == CmpInst::ICMP_NE) && a->w == I.pw)
		{
			uint32_t o1, o2; N f1, f2;
			bool r1 = I.resolve(a, o1, f1), r2 = I.resolve(b, o2, f2);
			if (r1 && r2 && o1 != o2) { set(mkConst(1, p.pred == CmpInst::ICMP_NE)); return; }
			if ((r1 && isConst(b, 0)) || (r2 && isConst(a, 0))) { set(mkConst(1, p.pred == CmpInst::ICMP_NE)); return; }
		}
		set(icmp(cvt(p.pred), a, b));
		return;
	}
	case Instruction::Select:
	{
		N c = num(fr, p.opd[0]); Val a = val(fr, p.opd[1]), b = val(fr, p.opd[2]);
		if (isConst(c)) { fr.v[p.dst] = c->k ? a : b; return; }
		if (a == b) { fr.v[p.dst] = a; return; }
		if (c->var && p.w != 1) { VarCond vc = varCond(c); if (vc.ok) { Val o; if (sameUnder(vc, a, b, o)) { fr.v[p.dst] = o; return; } throw Split{vc.e, vc.eq, I.where()}; } }
		if (!a.n || !b.n) throw Incomplete{"aggregate select"};
		set(ite(c, a.n, b.n));
		return;
	}
	case Instruction::ZExt: set(zext(num(fr, p.opd[0]), p.w)); return;
	case Instruction::SExt: set(sext(num(fr, p.opd[0]), p.w)); return;
	case Instruction::Trunc: set(trunc(num(fr, p.opd[0]), p.w)); return;
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
	{
		N a = num(fr, p.opd[0]);
		if (p.w && a->w > p.w) a = trunc(a, p.w); else if (p.w && a->w < p.w) a = zext(a, p.w);
		set(a); return;
	}
	case Instruction::Freeze: fr.v[p.dst] = val(fr, p.opd[0]); return;
	case Instruction::Alloca:
	{
		N cnt = num(fr, p.opd[0]);
		if (!isConst(cnt)) throw Incomplete{"variable-size stack array in " + I.where()};
		string nm = "local " + p.I->getName().str() + " of " + fr.f->pretty;
		uint32_t id = mem.alloc(OK::Stack, p.aux * (uint64_t)cnt->k, nm);
		mem.objs[id]->align = p.align;
		set(I.ptrTo(id)); return;
	}
	case Instruction::Load:
	{
		N ptr = num(fr, p.opd[0]);
		Type *t = p.I->getType();
		if (!p.w)
		{
			// aggregate load
			std::function<Val(Type *, N)> ld = [&](Type *ty, N at) -> Val {
				Val r;
				if (auto *st = dyn_cast<StructType>(ty)) { r.agg = std::make_shared<vector<Val>>(); auto *sl = I.DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) r.agg->push_back(ld(st->getElementType(i), affPlus(at, (uint64_t)sl->getElementOffset(i)))); return r; }
				if (auto *ar = dyn_cast<ArrayType>(ty)) { r.agg = std::make_shared<vector<Val>>(); uint64_t es = I.DL.getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); ++i) r.agg->push_back(ld(ar->getElementType(), affPlus(at, es * i))); return r; }
				if (ty->isVectorTy()) throw Incomplete{"vector value in " + I.where()};
				unsigned bytes = I.DL.getTypeStoreSize(ty), w = I.DL.getTypeSizeInBits(ty);
				N n = I.load(mem, at, bytes, 1); if (n->w > w) n = trunc(n, w); r.n = n; return r;
			};
			fr.v[p.dst] = ld(t, ptr); return;
		}
		if (t->isFloatingPointTy()) { N n = I.load(mem, ptr, p.aux, p.align); set(n); return; }
		N n = I.load(mem, ptr, p.aux, p.align);
		if (n->w > p.w) n = trunc(n, p.w);
		set(n); return;
	}
	case Instruction::Store:
	{
		Val v = val(fr, p.opd[0]); N ptr = num(fr, p.opd[1]);
		if (!v.n)
		{
			Type *t = cast<StoreInst>(p.I)->getValueOperand()->getType();
			std::function<void(Type *, N, const Val &)> sv = [&](Type *ty, N at, const Val &x) {
				if (x.n) { I.store(mem, at, x.n, 1); return; }
				if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = I.DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) sv(st->getElementType(i), affPlus(at, (uint64_t)sl->getElementOffset(i)), (*x.agg)[i]); }
				else if (auto *ar = dyn_cast<ArrayType>(ty)) { uint64_t es = I.DL.getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); ++i) sv(ar->getElementType(), affPlus(at, es * i), (*x.agg)[i]); }
			};
			sv(t, ptr, v); return;
		}
		N n = v.n; if (n->w < p.aux * 8) n = zext(n, p.aux * 8);
		I.store(mem, ptr, n, p.align); return;
	}
	case Instruction::GetElementPtr:
	{
		N r = num(fr, p.opd[0]);
		if (p.gepConst) r = affPlus(r, p.gepConst);
		for (auto &g : p.gep)
		{
			N ix = num(fr, g.first);
			if (ix->w < I.pw) ix = sext(ix, I.pw); else if (ix->w > I.pw) ix = trunc(ix, I.pw);
			r = add(r, mulc(ix, g.second));
		}
		if (p.aux && !I.quiet)
		{
			uint32_t id; N off;
			if (I.resolve(r, id, off))
			{
				const Obj &o = mem.get(id);
				if (o.kind == OK::Ext) { if (off->aff) { if (!I.checkExt(o, id, off, 0)) I.event("ptrrange", "pointer arithmetic leaves the input range", I.outside(o, off, 0)); } }
				else if (isConst(off) && (off->k > o.size)) I.event("ptrrange", "pointer arithmetic leaves " + o.name);
			}
		}
		set(r); return;
	}
	case Instruction::ExtractValue: { Val v = val(fr, p.opd[0]); for (unsigned i : p.idx) { if (!v.agg) throw Incomplete{"extractvalue"}; Val t = (*v.agg)[i]; v = t; } fr.v[p.dst] = v; return; }
	case Instruction::InsertValue:
	{
		Val v = val(fr, p.opd[0]), e = val(fr, p.opd[1]);
		std::function<Val(const Val &, size_t)> ins = [&](const Val &x, size_t d) -> Val { if (d == p.idx.size()) return e; Val r; r.agg = std::make_shared<vector<Val>>(*x.agg); (*r.agg)[p.idx[d]] = ins((*x.agg)[p.idx[d]], d + 1); return r; };
		fr.v[p.dst] = ins(v, 0); return;
	}
	case Instruction::Call:
	{
		vector<Val> args;
		for (int o : p.opd) args.push_back(val(fr, o));
		const Function *callee = p.callee;
		if (!callee)
		{
			N t = args.back().n; args.pop_back();
			uint32_t id; N off;
			if (t && I.resolve(t, id, off) && isConst(off, 0))
				for (auto &g : I.globalId) if (g.second == id) callee = dyn_cast<Function>(g.first);
			if (!callee) throw Incomplete{"indirect call in " + I.where()};
		}
		Val r = I.callFunc(callee, args, mem, dead);
		if (p.dst >= 0 && !dead) fr.v[p.dst] = r;
		return;
	}
	case Instruction::UIToFP: case Instruction::SIToFP:
	{
		N a = num(fr, p.opd[0]); Aff x;
		if (isConst(a)) { double d = p.op == Instruction::UIToFP ? (double)(uint64_t)a->k : (double)(int64_t)sgnv(a->k, a->w); set(mkFp(d, d)); return; }
		if (toAff(a, x)) { set(mkFp((double)(uint64_t)loBound(x), (double)(uint64_t)hiBound(x))); return; }
		throw Incomplete{"float conversion of data in " + I.where()};
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
	{
		N a = num(fr, p.opd[0]), b = num(fr, p.opd[1]);
		if (a->op != Op::FpConst || b->op != Op::FpConst) throw Incomplete{"float arithmetic in " + I.where()};
		double c[4]; double xs[2] = {a->flo, a->fhi}, ys[2] = {b->flo, b->fhi};
		for (int i = 0; i < 4; ++i) { double x = xs[i & 1], y = ys[i >> 1]; c[i] = p.op == Instruction::FAdd ? x + y : p.op == Instruction::FSub ? x - y : p.op == Instruction::FMul ? x * y : x / y; }
		double lo = c[0], hi = c[0]; for (double d : c) { lo = std::min(lo, d); hi = std::max(hi, d); }
		set(mkFp(lo, hi)); return;
	}
	case Instruction::FPToUI: case Instruction::FPToSI:
	{
		N a = num(fr, p.opd[0]);
		if (a->op != Op::FpConst) throw Incomplete{"float conversion in " + I.where()};
		int64_t lo = (int64_t)a->flo, hi = (int64_t)a->fhi;
		if (lo != hi) throw Incomplete{"float interval [" + std::to_string(a->flo) + "," + std::to_string(a->fhi) + "] not a single integer in " + I.where()};
		set(mkConst(p.w, (u128)(i128)lo)); return;
	}
	case Instruction::FPExt: case Instruction::FPTrunc: fr.v[p.dst] = val(fr, p.opd[0]); return;
	case Instruction::FNeg: { N a = num(fr, p.opd[0]); set(mkFp(-a->fhi, -a->flo)); return; }
	case Instruction::Fence: return;
	default:
		throw Incomplete{string("instruction ") + p.I->getOpcodeName() + " in " + I.where()};
	}
}

// ---------------------------------------------------------------- calls
Val Interp::callFunc(const Function *f, vector<Val> &args, Mem &mem, bool &dead)
{
	++calls;
	Val out;
	if (f->isIntrinsic() || f->isDeclaration() || f->getName().starts_with("_Zn") || f->getName().starts_with("_Zd"))
	{
		if (intrinsic(f, args, mem, out, dead)) return out;
		if (f->isDeclaration())
		{
			externSeen.insert(demangle(f->getName().str()));
			throw Incomplete{"call to external function " + demangle(f->getName().str()) + " in " + where()};
		}
	}
	PFunc &P = prep(f);
	bool memoable = memoOn && P.cost > 400 && !(P.misses > (P.cost < 3000 ? 24 : 150) && P.hits * 4 < P.misses);
	if (!memoable)
	{
		uint64_t s0 = steps;
		Val r = runFunc(P, args, mem, dead);
		P.cost = std::max(P.cost, steps - s0);
		return r;
	}
	for (auto it = P.memo.rbegin(); it != P.memo.rend(); ++it)
	{
		MemoEntry &e = *it;
		if (e.sig != F->sig || e.nobj > mem.objs.size() || !(e.args == args)) continue;
		bool ok = true;
		for (auto &r : e.reads)
		{
			const Obj &o = mem.get(std::get<0>(r));
			if (!o.alive || std::get<1>(r) >= o.cells.size() || o.cells[std::get<1>(r)] != std::get<2>(r)) { ok = false; break; }
		}
		if (ok) for (auto &x : e.ext)
		{
			if (mem.get(x.o).kind != OK::Ext || mem.get(x.o).base != x.base) { ok = false; break; }
			if (x.g.empty()) { if (!checkExt(mem.get(x.o), x.o, x.off, x.n)) { ok = false; break; } continue; }
			Facts save = *F; for (N t : x.g) { Aff a; if (toAffRaw(t, a)) { a.c -= 1; F->ge0.push_back(a); } } F->resig();
			auto rs = std::move(recs); recs.clear();
			ok = checkExt(mem.get(x.o), x.o, x.off, x.n);
			recs = std::move(rs); *F = save;
			if (!ok) break;
			for (Rec *r : recs) if (x.o < r->nobj) r->ext.push_back(x);
		}
		if (!ok) continue;
		++P.hits; ++memoHits;
		for (auto &r : e.reads) noteRead(mem.get(std::get<0>(r)), std::get<0>(r), std::get<1>(r), 1);
		for (auto &w : e.writes) { wrote(mem, std::get<0>(w)); noteWrite(std::get<0>(w), std::get<1>(w), 1); mem.mut(std::get<0>(w)).cells[std::get<1>(w)] = std::get<2>(w); }
		dead = e.dead;
		return e.ret;
	}
	++P.misses;
	if (traceMemo && P.name == traceMemo) { errs() << "miss sig " << F->sig << " nobj " << mem.objs.size() << " quiet " << quiet; for (auto &a : args) errs() << " " << (a.n ? show(a.n, 4) : "agg"); for (auto &e : P.memo) if (e.args == args && e.sig == F->sig) { for (auto &r : e.reads) { const Obj &o = mem.get(std::get<0>(r)); if (o.cells[std::get<1>(r)] != std::get<2>(r)) { errs() << " [+" << std::get<1>(r) << " " << show(std::get<2>(r).n, 3) << " vs " << show(o.cells[std::get<1>(r)].n, 3) << "]"; break; } } } errs() << "\n"; }
	Rec rec; rec.nobj = mem.objs.size();
	MemoEntry e; e.args = args; e.sig = F->sig; e.nobj = mem.objs.size();
	vector<bool> aliveBefore; for (auto &o : mem.objs) aliveBefore.push_back(o->alive);
	Val r;
	{
		struct G { vector<Rec *> &v; G(vector<Rec *> &x, Rec *r) : v(x) { v.push_back(r); } ~G() { v.pop_back(); } } g(recs, &rec);
		size_t ev = events.size();
		r = runFunc(P, args, mem, dead);
		if (events.size() != ev) rec.bad = true;
	}
	if (mem.objs.size() != rec.nobj) rec.bad = true;
	for (size_t i = 0; i < rec.nobj && !rec.bad; ++i) if (mem.objs[i]->alive != aliveBefore[i]) rec.bad = true;
	if (!rec.bad && !quiet)
	{
		e.reads = std::move(rec.reads); e.ext = std::move(rec.ext.v);
		for (auto &w : rec.writes) e.writes.push_back({w.first, w.second, mem.get(w.first).cells[w.second]});
		e.ret = r; e.dead = dead;
		if (P.memo.size() > 4000) P.memo.clear();
		P.memo.push_back(std::move(e));
	}
	return r;
}

Val Interp::runFunc(PFunc &P, vector<Val> &args, Mem &mem, bool &dead)
{
	if (stack.size() > 200) throw Incomplete{"recursion in " + P.pretty};
	Frame fr; fr.f = &P; fr.v.resize(P.nslots);
	for (size_t i = 0; i < args.size() && i < P.F->arg_size(); ++i) fr.v[i] = args[i];
	size_t nobj = mem.objs.size();
	struct G { vector<Frame *> &v; G(vector<Frame *> &x, Frame *r) : v(x) { v.push_back(r); } ~G() { v.pop_back(); } } g(stack, &fr);
	Exec ex(*this);
	Flow fl = ex.exec(fr, mem, 0, {}, nullptr, false);
	++P.runs;
	// release this frame's locals
	bool heap = false;
	for (size_t i = nobj; i < mem.objs.size(); ++i) if (mem.objs[i]->kind == OK::Heap) heap = true;
	if (!heap) mem.objs.resize(nobj);
	else
	{
		while (mem.objs.size() > nobj && mem.objs.back()->kind == OK::Stack) mem.objs.pop_back();
		for (size_t i = nobj; i < mem.objs.size(); ++i) if (mem.objs[i]->kind == OK::Stack && mem.objs[i]->alive) { mem.mut(i).alive = false; }
		// trailing dead objects can go as well
		while (mem.objs.size() > nobj && !mem.objs.back()->alive) mem.objs.pop_back();
	}
	if (fl.k == Flow::Dead) dead = true;
	return fl.ret;
}

Val Interp::call(const string &fn, vector<Val> args, Mem &mem, bool *deadOut)
{
	const Function *f = M.getFunction(fn);
	if (!f || f->isDeclaration()) throw Incomplete{"missing entry point " + fn};
	bool dead = false;
	stack.clear(); recs.clear(); path.clear(); forkNest.clear();
	Val r = callFunc(f, args, mem, dead);
	if (deadOut) *deadOut = dead;
	else if (dead) event("abort", "call of " + fn + " cannot return normally");
	return r;
}

bool Interp::intrinsic(const Function *f, vector<Val> &a, Mem &mem, Val &out, bool &dead)
{
	StringRef n = f->getName();
	auto set = [&](N x) { out.n = x; return true; };
	if (f->isIntrinsic())
	{
		switch (f->getIntrinsicID())
		{
		case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memcopy(mem, a[0].n, a[1].n, a[2].n, false); return true;
		case Intrinsic::memmove: memcopy(mem, a[0].n, a[1].n, a[2].n, true); return true;
		case Intrinsic::memset: memfill(mem, a[0].n, a[1].n, a[2].n); return true;
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
		{
			uint32_t id; N off;
			if (resolve(a[1].n, id, off) && isConst(off, 0) && mem.get(id).kind == OK::Stack)
			{
				Obj &o = mem.mut(id);
				o.alive = f->getIntrinsicID() == Intrinsic::lifetime_start;
				for (auto &c : o.cells) c = Cell();
				for (Rec *r : recs) if (id < r->nobj) r->bad = true;
			}
			return true;
		}
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
		{
			bool s = f->getIntrinsicID() == Intrinsic::smin || f->getIntrinsicID() == Intrinsic::smax;
			bool mn = f->getIntrinsicID() == Intrinsic::umin || f->getIntrinsicID() == Intrinsic::smin;
			N c = icmp(s ? Pred::SLT : Pred::ULT, a[0].n, a[1].n);
			if (!isConst(c) && c->var)
			{
				VarCond vc = varCond(c); Val o;
				if (vc.ok) { if (sameUnder(vc, mn ? a[0] : a[1], mn ? a[1] : a[0], o)) return set(o.n); throw Split{vc.e, vc.eq, where()}; }
			}
			return set(mn ? ite(c, a[0].n, a[1].n) : ite(c, a[1].n, a[0].n));
		}
		case Intrinsic::bswap: { vector<N> b; for (unsigned i = 0; i < a[0].n->w / 8; ++i) b.push_back(slice(a[0].n, a[0].n->w - 8 * (i + 1), 8)); return set(catNodes(b)); }
		case Intrinsic::fshl: case Intrinsic::fshr:
		{
			if (!isConst(a[2].n)) return false;
			unsigned w = a[0].n->w, k = (unsigned)(a[2].n->k % w);
			bool l = f->getIntrinsicID() == Intrinsic::fshl;
			if (k == 0) return set(l ? a[0].n : a[1].n);
			unsigned s = l ? w - k : k;   // take s.. from low operand
			return set(cat({{a[1].n, (uint16_t)s, (uint16_t)(w - s), 0}, {a[0].n, 0, (uint16_t)s, 0}}));
		}
		case Intrinsic::threadlocal_address: out = a[0]; return true;
		case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: return true;
		case Intrinsic::expect: case Intrinsic::expect_with_probability: out = a[0]; return true;
		case Intrinsic::is_constant: return set(mkConst(1, 0));
		case Intrinsic::trap: event("abort", "trap reached"); dead = true; return true;
		case Intrinsic::abs: { N z = mkConst(a[0].n->w, 0); N c = icmp(Pred::SLT, a[0].n, z); return set(ite(c, neg(a[0].n), a[0].n)); }
		case Intrinsic::objectsize: return set(mkConst(f->getReturnType()->getIntegerBitWidth(), ~(u128)0));
		case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::ssub_with_overflow:
		{
			auto id = f->getIntrinsicID(); unsigned w = a[0].n->w;
			N x = a[0].n, y = a[1].n, r, o;
			if (id == Intrinsic::uadd_with_overflow) { r = add(x, y); o = icmp(Pred::ULT, r, x); }
			else if (id == Intrinsic::usub_with_overflow) { r = sub(x, y); o = icmp(Pred::ULT, x, y); }
			else if (id == Intrinsic::umul_with_overflow)
			{
				r = mul(x, y); u128 mx = maxVal(x), my = maxVal(y);
				bool fits = mx == 0 || my <= maskw(w) / mx;
				if (!fits) return false;
				o = mkConst(1, 0);
			}
			else return false;
			out.agg = std::make_shared<vector<Val>>(2); (*out.agg)[0].n = r; (*out.agg)[1].n = o; return true;
		}
		default: break;
		}
		if (n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n.starts_with("llvm.experimental.noalias")) return true;
		if (n.starts_with("llvm.ctpop")) return false;
		return false;
	}
	if (n.starts_with("rec_"))
	{
		if (!path.empty()) throw Incomplete{"recorded call under a data-dependent condition in " + where()};
		if (!quiet)
		{
			RecEntry e; e.kind = n.str();
			auto bytes = [&](N p, N len, vector<N> &v) {
				if (!isConst(len) || len->k > 4096) throw Incomplete{"recorded bytes of undetermined length in " + where()};
				for (uint64_t i = 0; i < (uint64_t)len->k; ++i) v.push_back(load(mem, affPlus(p, i), 1, 1));
			};
			if (n == "rec_add")
			{
				e.ptr = a[1].n; e.len = a[2].n; uint32_t id; N off;
				if (isConst(e.len, 0)) ;
				else if (resolve(e.ptr, id, off) && mem.get(id).kind == OK::Ext) { e.input = true; N w = outside(mem.get(id), off, 0); (void)w; if (e.len->w != 64) e.len = zext(e.len, 64); }
				else bytes(e.ptr, e.len, e.bytes);
			}
			else if (n == "rec_ctor") { e.args.push_back(a[1].n); bytes(a[2].n, a[3].n, e.bytes); bytes(a[4].n, a[5].n, e.bytes2); }
			recLog.push_back(e);
		}
		return true;
	}
	if (n == "memcpy" || n == "memmove") { memcopy(mem, a[0].n, a[1].n, a[2].n, n == "memmove"); out = a[0]; return true; }
	if (n == "memset") { memfill(mem, a[0].n, trunc(a[1].n, 8), a[2].n); out = a[0]; return true; }
	if (n == "memcmp" || n == "bcmp")
	{
		if (!isConst(a[2].n)) return false;
		N eq = mkConst(1, 1);
		for (uint64_t i = 0; i < (uint64_t)a[2].n->k; ++i) { N x = load(mem, affPlus(a[0].n, i), 1, 1), y = load(mem, affPlus(a[1].n, i), 1, 1); eq = andN(eq, icmp(Pred::EQ, x, y)); }
		if (isConst(eq)) { if (eq->k) return set(mkConst(32, 0)); return set(mkConst(32, 1)); }
		return set(ite(eq, mkConst(32, 0), mkConst(32, 1)));
	}
	if (n == "strlen")
	{
		for (uint64_t i = 0; i < 100000; ++i) { N c = load(mem, affPlus(a[0].n, i), 1, 1); if (!isConst(c)) return false; if (c->k == 0) return set(mkConst(pw, i)); }
		return false;
	}
	if (n == "_Znwm" || n == "_Znwj" || n == "_Znam" || n == "_Znaj" || n == "_ZnwmRKSt9nothrow_t" || n == "malloc")
	{
		if (!isConst(a[0].n)) throw Incomplete{"allocation of symbolic size in " + where()};
		if (a[0].n->k > (1u << 22)) throw Incomplete{"large allocation in " + where()};
		uint32_t id = mem.alloc(OK::Heap, (uint64_t)a[0].n->k, "heap block from " + (stack.empty() ? string() : stack.back()->f->pretty));
		for (Rec *r : recs) r->bad = true;
		return set(ptrTo(id));
	}
	if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free")
	{
		if (isConst(a[0].n, 0)) return true;
		uint32_t id; N off;
		for (Rec *r : recs) r->bad = true;
		if (!resolve(a[0].n, id, off)) { event("free", "release of unresolved pointer", nullptr, false); return true; }
		const Obj &o = mem.get(id);
		if (o.kind != OK::Heap || !isConst(off, 0)) { event("free", "release of " + o.name + ", which is not a heap block start"); return true; }
		if (!o.alive) { event("free", "double release of " + o.name); return true; }
		mem.mut(id).alive = false;
		return true;
	}
	if (n == "__cxa_guard_acquire")
	{
		N g = load(mem, a[0].n, 1, 1);
		if (!isConst(g)) return false;
		if (!g->k) ++initDepth;
		return set(mkConst(32, g->k ? 0 : 1));
	}
	if (n == "__cxa_guard_release") { store(mem, a[0].n, mkConst(8, 1), 1); --initDepth; return true; }
	if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") return set(mkConst(32, 0));
	if (n == "log2") { N x = a[0].n; if (x->op != Op::FpConst) return false; return set(mkFp(std::log2(x->flo), std::log2(x->fhi))); }
	if (n == "floor" || n == "ceil") { N x = a[0].n; if (x->op != Op::FpConst) return false; return set(n == "floor" ? mkFp(std::floor(x->flo), std::floor(x->fhi)) : mkFp(std::ceil(x->flo), std::ceil(x->fhi))); }
	if (n == "lround" || n == "llround")
	{
		N x = a[0].n; if (x->op != Op::FpConst) return false;
		long lo = std::lround(x->flo), hi = std::lround(x->fhi);
		if (lo != hi) throw Incomplete{"rounding of an interval [" + std::to_string(x->flo) + "," + std::to_string(x->fhi) + "] is not a single integer in " + where()};
		return set(mkConst(f->getReturnType()->getIntegerBitWidth(), (u128)(i128)lo));
	}
	if (n == "abort" || n == "_ZSt9terminatev" || n == "exit") { event("abort", n.str() + " reached"); dead = true; return true; }
	if (n == "__assert_fail") { event("assert", "assertion fails"); dead = true; return true; }
	if (n.starts_with("_ZSt") && n.contains("__throw_")) { event("throw", demangle(n.str()) + " reached"); dead = true; return true; }
	return false;
}

void Interp::profile()
{
	vector<PFunc *> v; for (auto &x : pf) v.push_back(x.second.get());
	std::sort(v.begin(), v.end(), [](PFunc *a, PFunc *b) { return a->self > b->self; });
	for (size_t i = 0; i < v.size() && i < 16; ++i) errs() << v[i]->self << " ops, runs " << v[i]->runs << ", hits " << v[i]->hits << ", misses " << v[i]->misses << ", cost " << v[i]->cost << "  " << v[i]->pretty << "\n";
}
