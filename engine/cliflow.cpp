// cliflow: flow analysis of a command-line program in LLVM IR.
//
// The program's control flow is explored over an abstract state: integers are constants or one symbol with an interval (a branch on a
// symbol splits the interval), command-line strings may be unknown, file contents are segments of an abstract stream, and every
// operation on the environment (open, read) branches into each result it can have. Reads in a loop are closed by a fixpoint: a
// state that repeats at a read call, up to the position in the stream, is not continued.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;
typedef __int128 I128;

struct Undec { string why; };
struct Split { int sym; int64_t at; };        // [lo, at-1] and [at, hi]
struct Fork { int n; };
struct Prune { };
struct Bad { string what; };                  // a definite error on this path

struct Val;
typedef shared_ptr<vector<Val>> Agg;
struct Val
{
	enum K : uint8_t { Undef, Num, Top, SByte, AggK } k = Undef;
	uint32_t obj = 0; int sym = -1; int64_t c = 0, m = 0; Agg agg;
	static Val num(int64_t c) { Val v; v.k = Num; v.c = c; return v; }
	static Val ptr(uint32_t o, int64_t c = 0) { Val v; v.k = Num; v.obj = o; v.c = c; return v; }
	static Val top() { Val v; v.k = Top; return v; }
	bool isC() const { return k == Num && !obj && sym < 0; }
	bool operator==(const Val &x) const { return k == x.k && obj == x.obj && sym == x.sym && c == x.c && m == x.m && !agg && !x.agg; }
};
struct Byte { uint8_t k = 0, v = 0, n = 0; const Val *ref = nullptr; };   // k: 0 undefined, 1 constant v, 2 byte v of the n-byte value *ref
struct Lin { int64_t c = 0, m = 0; int sym = -1; bool operator==(const Lin &x) const { return c == x.c && m == x.m && sym == x.sym; } };
static Lin LC(int64_t c) { Lin l; l.c = c; return l; }
static Lin lin(const Val &v) { Lin l; l.c = v.c; l.m = v.m; l.sym = v.sym; return l; }
struct Run { Lin start, len, pos; int file; };
static const int64_t PG = 128;
typedef shared_ptr<vector<Byte>> Page;
struct Obj
{
	string name; Lin size; bool freed = false, heap = false, unknown = false, ro = false; const Function *fn = nullptr;
	uint8_t fill = 0; // 0 undefined, 1 zero
	std::map<int64_t, Page> pages; vector<Run> runs;
};
struct Sym { int64_t lo, hi; };
struct File { string name; Lin pos; int st = 0; int reads = 0; };      // st: 0 open, 1 end reached, 2 error
struct FnInfo { std::unordered_map<const Value *, int> slot; int n = 0; };
struct Frame
{
	const Function *F; FnInfo *fi; BasicBlock::const_iterator it; const BasicBlock *bb, *prev = nullptr; vector<Val> v; vector<uint32_t> allocas;
	vector<Val> va;
};
struct Exc { uint32_t obj; const GlobalVariable *ti; };
struct State
{
	vector<Frame> fr; vector<shared_ptr<Obj>> objs; vector<Sym> syms; vector<File> files;
	vector<int> choices; size_t used = 0;
	vector<std::pair<int, string>> excl;          // strings starting at symbol i that differ from the literal
	Exc cur{0, nullptr}; vector<Exc> caught;
	string out[3]; string where, exitWhere; vector<string> notes; vector<string> env;
	long steps = 0; std::map<const GlobalValue *, uint32_t> globals; std::map<uint32_t, Exc> excObj;
	std::map<string, Val> cmp; std::map<std::tuple<int, int64_t, int64_t, int>, int> byteSym; std::map<int, Val> symByte;
	int errnoObj = 0; struct NumText { int c; int64_t used; Val v; }; std::map<int, NumText> numMemo;
};
struct Seg { int kind; string lit; Lin pos, len; int file; };   // 0 stream, 1 literal bytes, 2 unknown, 3 item mark
struct Hist { int cls; string key; Lin length; string name, custom; vector<Seg> seg; bool fin = false; string desc; };
static vector<Hist> hists; static std::map<string, int> histIx;
static const int64_t HB = 0x5A000000;

struct Ana
{
	Module &M; const DataLayout &DL; State *S = nullptr; std::unordered_map<const Function *, FnInfo> fis; std::set<Val *> dummy;
	std::map<string, int> cov; std::set<const Function *> visited; std::set<string> covLines;
	std::set<string> seen; long fix = 0, bounded = 0, totalSteps = 0; int maxReads = 24; long stepLimit = 6000000;
	vector<std::unique_ptr<Val>> pool; string mainFile;
	Ana(Module &m) : M(m), DL(m.getDataLayout()) {}

	// ------------------------------------------------------------ symbols
	int newSym(int64_t lo, int64_t hi) { S->syms.push_back({lo, hi}); return (int)S->syms.size() - 1; }
	I128 lo(const Lin &l) { if (l.sym < 0) return l.c; Sym s = S->syms[l.sym]; return (I128)l.c + (I128)l.m * (l.m >= 0 ? s.lo : s.hi); }
	I128 hi(const Lin &l) { if (l.sym < 0) return l.c; Sym s = S->syms[l.sym]; return (I128)l.c + (I128)l.m * (l.m >= 0 ? s.hi : s.lo); }
	Lin norm(Lin l) { if (l.sym >= 0 && (l.m == 0 || S->syms[l.sym].lo == S->syms[l.sym].hi)) { if (l.m) l.c += l.m * S->syms[l.sym].lo; l.m = 0; l.sym = -1; } return l; }
	bool addLin(Lin a, Lin b, int64_t k, Lin &r)
	{
		a = norm(a); b = norm(b); r = a; r.c += k * b.c;
		if (b.sym >= 0) { if (a.sym >= 0 && a.sym != b.sym) return false; r.sym = b.sym; r.m += k * b.m; if (!r.m) r.sym = -1; }
		return true;
	}
	Lin plus(Lin a, Lin b, int64_t k = 1) { Lin r; if (!addLin(a, b, k, r)) throw Undec{"arithmetic over two unknowns"}; return r; }
	[[noreturn]] void split(int sym, int64_t at) { throw Split{sym, at}; }
	// sign of a linear value, splitting the symbol's interval until it is uniform: returns -1, 0, 1
	int sign(Lin d)
	{
		d = norm(d);
		I128 l = lo(d), h = hi(d);
		if (l > 0) return 1; if (h < 0) return -1; if (l == 0 && h == 0) return 0;
		// split so that each part has a uniform sign; find the largest s with value < 0 (m > 0) etc.
		int64_t m = d.m, c = d.c; Sym s = S->syms[d.sym];
		auto fl = [](I128 a, I128 b) { I128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) --q; return q; };
		if (m > 0)
		{	// value < 0 iff s < -c/m  iff s <= ceil(-c/m)-1 = -floor(c/m) - 1
			int64_t z = (int64_t)(-fl(c, m)); // smallest s with value >= 0
			if (z > s.lo) split(d.sym, z);
			split(d.sym, z + 1);              // here z == lo and value(z)==0
		}
		int64_t z = (int64_t)fl(c, -m);       // largest s with value >= 0
		if (z < s.hi) split(d.sym, z + 1);
		split(d.sym, z);
	}
	bool isZero(Lin d)
	{
		d = norm(d); if (d.sym < 0) return d.c == 0;
		if (lo(d) > 0 || hi(d) < 0) return false;
		if (d.c % d.m) return false;
		return sign(d) == 0;
	}
	bool provLe(Lin a, Lin b) { Lin d; if (!addLin(b, a, -1, d)) return lo(b) >= hi(a); return lo(norm(d)) >= 0; }
	int choose(int n) { if (S->used < S->choices.size()) return S->choices[S->used++]; throw Fork{n}; }

	// ------------------------------------------------------------ objects
	Obj &rd(uint32_t o) { return *S->objs[o]; }
	Obj &wr(uint32_t o) { auto &p = S->objs[o]; if (p.use_count() > 1) p = make_shared<Obj>(*p); return *p; }
	uint32_t newObj(const string &n, Lin size, bool heap) { auto o = make_shared<Obj>(); o->name = n; o->size = size; o->heap = heap; S->objs.push_back(o); return (uint32_t)S->objs.size() - 1; }
	const Val *intern(const Val &v) { pool.push_back(std::make_unique<Val>(v)); return pool.back().get(); }
	void check(const Val &p, Lin n, const char *what)
	{
		if (p.k != Val::Num) throw Undec{string(what) + " through an unknown pointer"};
		if (!p.obj) { if (p.sym < 0 && p.c >= 0 && p.c < 4096) throw Bad{string(what) + " through a null pointer"}; throw Undec{string(what) + " through an integer"}; }
		Obj &o = rd(p.obj);
		if (o.fn) throw Undec{string(what) + " of a function"};
		if (o.freed) throw Bad{string(what) + " of memory that has been released"};
		if (o.unknown) return;
		Lin a = lin(p), e = plus(a, n);
		if (lo(a) < 0 || !provLe(e, o.size))
		{
			if (hi(a) < 0 || lo(e) > hi(o.size)) throw Bad{string(what) + " outside the object " + o.name};
			Lin d; if (addLin(o.size, e, -1, d) && d.sym >= 0) { if (sign(d) < 0) throw Bad{string(what) + " outside the object " + o.name}; return; }
			throw Undec{string(what) + " cannot be bounded"};
		}
	}
	Byte getB(const Obj &o, int64_t a)
	{
		auto i = o.pages.find(a / PG); if (i == o.pages.end()) { Byte b; if (o.fill) b.k = 1; return b; }
		return (*i->second)[a % PG];
	}
	void setB(Obj &o, int64_t a, Byte b)
	{
		auto &p = o.pages[a / PG];
		if (!p) { Byte f; if (o.fill) f.k = 1; p = make_shared<vector<Byte>>(PG, f); } else if (p.use_count() > 1) p = make_shared<vector<Byte>>(*p);
		(*p)[a % PG] = b;
	}
	// the stream runs of an object outside [a, a+n)
	void cutRuns(Obj &o, Lin a, Lin n)
	{
		if (o.runs.empty()) return;
		vector<Run> out; Lin e = plus(a, n);
		for (Run r : o.runs)
		{
			Lin re = plus(r.start, r.len);
			if (provLe(re, a) || provLe(e, r.start)) { out.push_back(r); continue; }
			int sl = sign(plus(r.start, a, -1)), sr = sign(plus(re, e, -1));
			if (sl < 0) { Run h = r; h.len = norm(plus(a, r.start, -1)); if (sign(h.len) > 0) out.push_back(h); }
			if (sr > 0) { Run t = r; t.start = e; Lin d = plus(e, r.start, -1); if (r.file >= 0) t.pos = plus(r.pos, d); t.len = norm(plus(r.len, d, -1)); if (sign(t.len) > 0) out.push_back(t); }
		}
		o.runs = out;
	}
	// a run that continues its neighbour in both the object and the stream is joined with it
	void addRun(Obj &o, const Run &r)
	{
		for (auto &q : o.runs) if (q.file == r.file && norm(plus2(q.start, q.len)) == norm(r.start) && (r.file < 0 ? q.pos == r.pos : norm(plus2(q.pos, q.len)) == norm(r.pos))) { Lin l; if (addLin(q.len, r.len, 1, l)) { q.len = norm(l); return; } }
		o.runs.push_back(r);
	}
	Lin plus2(Lin a, Lin b) { Lin r; if (!addLin(a, b, 1, r)) { r = LC(INT64_MIN); } return r; }
	const Run *runAt(const Obj &o, Lin a)
	{
		for (auto &r : o.runs) { if (sign(plus(r.start, a, -1)) <= 0 && sign(plus(plus(r.start, r.len), a, -1)) > 0) return &r; }
		return nullptr;
	}
	Val loadN(const Val &p, unsigned n, bool isPtr)
	{
		check(p, LC(n), "read"); Obj &o = rd(p.obj); Lin a = norm(lin(p));
		if (o.unknown) return Val::top();
		if (!o.runs.empty()) if (const Run *r = runAt(o, a))
		{
			if (n != 1) return Val::top();
			if (r->file < 0) return Val::num((int64_t)(signed char)r->pos.c);
			Val v; v.k = Val::SByte; Lin q = norm(plus(r->pos, plus(a, r->start, -1))); v.c = q.c; v.m = q.m; v.sym = q.sym; v.obj = r->file + 1; return v;
		}
		if (a.sym >= 0) throw Undec{"read at an unknown offset"};
		uint64_t x = 0; bool cst = true, und = false; const Val *ref = nullptr; bool whole = true;
		for (unsigned i = 0; i < n; ++i)
		{
			Byte b = getB(o, a.c + i);
			if (b.k == 1) { if (i < 8) x |= (uint64_t)b.v << (8 * i); whole = false; }
			else if (b.k == 2) { cst = false; if (i == 0) ref = b.ref; if (b.ref != ref || b.v != i || b.n != n) whole = false; }
			else { cst = false; und = true; whole = false; }
		}
		if (cst) { if (n > 8) return Val::top(); Val v = Val::num((int64_t)x); return n == 8 ? v : Val::num((int64_t)(x << (64 - 8 * n)) >> (64 - 8 * n)); }
		if (whole && ref) { Val v = *ref; if (v.k == Val::Num) { Lin l = norm(lin(v)); v.c = l.c; v.m = l.m; v.sym = l.sym; } return v; }
		if (und) return Val();
		return Val::top();
	}
	void storeN(const Val &p, unsigned n, const Val &v)
	{
		check(p, LC(n), "write"); Obj &o = wr(p.obj); if (o.unknown) return; if (o.ro) throw Bad{"write to constant data"};
		Lin a = norm(lin(p)); if (a.sym >= 0 && !(n == 1 && v.isC())) throw Undec{"write at an unknown offset"};
		cutRuns(o, a, LC(n)); if (a.sym >= 0) { addRun(o, Run{a, LC(1), LC(v.c & 255), -1}); return; }
		if (v.isC()) { for (unsigned i = 0; i < n; ++i) { Byte b; b.k = 1; b.v = i < 8 ? (uint8_t)(v.c >> (8 * i)) : (v.c < 0 ? 255 : 0); setB(o, a.c + i, b); } return; }
		if (v.k == Val::Undef) { for (unsigned i = 0; i < n; ++i) setB(o, a.c + i, Byte()); return; }
		const Val *r = intern(v);
		for (unsigned i = 0; i < n; ++i) { Byte b; b.k = 2; b.v = i; b.n = n; b.ref = r; setB(o, a.c + i, b); }
	}
	Val loadT(Type *T, const Val &p)
	{
		if (auto *st = dyn_cast<StructType>(T))
		{
			Val r; r.k = Val::AggK; r.agg = make_shared<vector<Val>>(); auto *L = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.c += (int64_t)L->getElementOffset(i); r.agg->push_back(loadT(st->getElementType(i), q)); }
			return r;
		}
		if (T->isIntegerTy() || T->isPointerTy())
		{
			unsigned n = (unsigned)DL.getTypeStoreSize(T); Val v = loadN(p, n, T->isPointerTy());
			if (T->isIntegerTy(1) && v.isC()) v.c &= 1;
			if (T->isIntegerTy() && v.isC()) v.c = canon(v.c, T->getIntegerBitWidth());
			return v;
		}
		return Val::top();
	}
	void storeT(Type *T, const Val &p, const Val &v)
	{
		if (v.k == Val::AggK)
		{
			auto *st = dyn_cast<StructType>(T);
			for (size_t i = 0; i < v.agg->size(); ++i)
			{
				Val q = p; Type *E = st ? st->getElementType(i) : T->getArrayElementType();
				q.c += st ? (int64_t)DL.getStructLayout(st)->getElementOffset(i) : (int64_t)(i * DL.getTypeAllocSize(E)); storeT(E, q, (*v.agg)[i]);
			}
			return;
		}
		storeN(p, (unsigned)DL.getTypeStoreSize(T), v);
	}
	// the value of a byte of a file: any of 0..255, the same each time it is looked at
	Val byteVal(const Val &v, bool sgn)
	{
		auto key = std::make_tuple((int)v.obj, v.c, v.m, v.sym); auto i = S->byteSym.find(key); int sy;
		if (i == S->byteSym.end()) { sy = newSym(0, 255); S->byteSym[key] = sy; S->symByte[sy] = v; } else sy = i->second;
		Val r; r.k = Val::Num; r.m = 1; r.sym = sy; if (sgn) { if (S->syms[sy].lo >= 128) r.c = -256; else if (S->syms[sy].hi >= 128) split(sy, 128); }
		return r;
	}
	const Val *streamByte(const Byte &b) { if (b.k != 2 || b.n != 1) return nullptr; if (b.ref->k == Val::SByte) return b.ref; if (b.ref->k == Val::Num && !b.ref->obj && b.ref->sym >= 0 && b.ref->m == 1 && b.ref->c % 256 == 0) { auto i = S->symByte.find(b.ref->sym); if (i != S->symByte.end()) return &i->second; } return nullptr; }
	static int64_t canon(int64_t x, unsigned w) { if (w >= 64) return x; if (w == 1) return x & 1; return (int64_t)((uint64_t)x << (64 - w)) >> (64 - w); }

	// what lies in [p, p+n)
	vector<Seg> content(const Val &p, Lin n)
	{
		vector<Seg> out; n = norm(n);
		if (isZero(n)) return out;
		if (sign(n) < 0) throw Bad{"a negative length"};
		check(p, n, "read"); Obj &o = rd(p.obj); Lin a = norm(lin(p)), e = plus(a, n);
		while (sign(plus(e, a, -1)) > 0)
		{
			const Run *r = o.runs.empty() ? nullptr : runAt(o, a);
			if (r)
			{
				Lin d = plus(a, r->start, -1), len = plus(r->len, d, -1), rest = plus(e, a, -1);
				if (sign(plus(len, rest, -1)) > 0) len = rest;
				Seg s{0, "", norm(plus(r->pos, d)), norm(len), r->file}; if (r->file < 0) { s.kind = 1; s.lit = string(1, (char)r->pos.c); s.pos = LC(0); s.file = 0; } out.push_back(s); a = norm(plus(a, len));
				continue;
			}
			a = norm(a);
			Lin lim = e; for (auto &q : o.runs) if (sign(plus(q.start, a, -1)) > 0 && sign(plus(lim, q.start, -1)) > 0) lim = q.start;
			lim = norm(lim);
			if (a.sym >= 0 || lim.sym >= 0) { out.push_back(Seg{2, "bytes not read from the file", LC(0), norm(plus(lim, a, -1)), 0}); a = lim; continue; }
			for (; a.c < lim.c; ++a.c)
			{
				Byte b = getB(o, a.c);
				if (b.k == 1) { if (out.empty() || out.back().kind != 1) out.push_back(Seg{1, "", LC(0), LC(0), 0}); if (out.back().lit.size() < 4096) out.back().lit += (char)b.v; out.back().len.c++; }
				else if (const Val *sb = streamByte(b))
				{
					Lin q = norm(lin(*sb)); int f = (int)sb->obj - 1;
					if (!out.empty() && out.back().kind == 0 && out.back().file == f) { Lin x = norm(plus(out.back().pos, out.back().len)); if (x == q) { out.back().len.c++; continue; } }
					out.push_back(Seg{0, "", q, LC(1), f});
				}
				else { if (out.empty() || out.back().kind != 2) out.push_back(Seg{2, b.k ? "unknown bytes" : "uninitialised bytes", LC(0), LC(0), 0}); out.back().len.c++; }
			}
		}
		// join neighbouring stream segments
		vector<Seg> j; for (auto &s : out) { if (!j.empty() && s.kind == 0 && j.back().kind == 0 && j.back().file == s.file && isZero(plus(plus(j.back().pos, j.back().len), s.pos, -1))) j.back().len = norm(plus(j.back().len, s.len)); else j.push_back(s); }
		return j;
	}
	void copyMem(const Val &d, const Val &s, Lin n)
	{
		n = norm(n); if (isZero(n)) return; if (sign(n) < 0) throw Bad{"a copy of negative length"};
		check(d, n, "write"); check(s, n, "read");
		// resolve every split before the first effect
		vector<Seg> what; vector<Run> runs; Obj &so = rd(s.obj); Lin a = norm(lin(s)), e = norm(plus(a, n)), db = norm(lin(d)); vector<std::pair<int64_t, Byte>> bytes;
		if (so.unknown) throw Undec{"a copy from outside the program"};
		Lin delta = norm(plus(db, a, -1));
		while (sign(plus(e, a, -1)) > 0)
		{
			const Run *r = so.runs.empty() ? nullptr : runAt(so, a);
			if (r)
			{
				Lin dd = plus(a, r->start, -1), len = plus(r->len, dd, -1), rest = plus(e, a, -1);
				if (sign(plus(len, rest, -1)) > 0) len = rest;
				runs.push_back(Run{norm(plus(a, delta)), norm(len), r->file < 0 ? r->pos : norm(plus(r->pos, dd)), r->file}); a = norm(plus(a, len)); continue;
			}
			Lin lim = e; for (auto &q : so.runs) if (sign(plus(q.start, a, -1)) > 0 && sign(plus(lim, q.start, -1)) > 0) lim = q.start;
			a = norm(a); lim = norm(lim);
			if (a.sym >= 0 || lim.sym >= 0 || delta.sym >= 0) throw Undec{"a copy of unknown length"};
			if (lim.c - a.c > (1 << 18)) { if (bytes.size() > (1 << 22)) throw Undec{"a long copy"}; }
			for (; a.c < lim.c; ++a.c) bytes.push_back({a.c + delta.c, getB(so, a.c)});
		}
		{ Obj t = rd(d.obj); cutRuns(t, db, n); }
		Obj &o = wr(d.obj); if (o.ro) throw Bad{"write to constant data"}; if (o.unknown) return;
		cutRuns(o, db, n);
		for (auto &b : bytes) setB(o, b.first, b.second);
		for (auto &r : runs) addRun(o, r);
	}
	void setMem(const Val &d, const Val &v, Lin n)
	{
		n = norm(n); if (isZero(n)) return; if (sign(n) < 0) throw Bad{"a fill of negative length"};
		check(d, n, "write"); Lin a = norm(lin(d));
		if (v.isC() && (v.c & 255) == 0 && a == LC(0) && norm(rd(d.obj).size) == n) { Obj &w = wr(d.obj); if (w.unknown) return; if (w.ro) throw Bad{"write to constant data"}; w.pages.clear(); w.runs.clear(); w.fill = 1; return; }
		if (n.sym >= 0 || a.sym >= 0 || (n.c > 2048 && v.isC()))
		{
			if (!v.isC()) throw Undec{"a fill of unknown length"};
			{ Obj t = rd(d.obj); cutRuns(t, a, n); } Obj &o = wr(d.obj); if (o.unknown) return; if (o.ro) throw Bad{"write to constant data"}; cutRuns(o, a, n); addRun(o, Run{a, n, LC(v.c & 255), -1}); return;
		}
		{ Obj t = rd(d.obj); cutRuns(t, a, n); }
		Obj &o = wr(d.obj); if (o.unknown) return; if (o.ro) throw Bad{"write to constant data"};
		cutRuns(o, a, n);
		Byte b; if (v.isC()) { b.k = 1; b.v = (uint8_t)v.c; } else if (v.k != Val::Undef) { b.k = 2; b.n = 1; b.ref = intern(v); }
		for (int64_t i = 0; i < n.c; ++i) setB(o, a.c + i, b);
	}
	// bytes of a C string: -1 - symbol for an unknown byte
	vector<int> cstr(const Val &p, int64_t maxLen = -1)
	{
		vector<int> r; Val q = p; if (p.k != Val::Num) throw Undec{"an unknown string"};
		if (!p.obj) throw Bad{"a null pointer is used as a string"};
		for (;; ++q.c)
		{
			if (maxLen >= 0 && (int64_t)r.size() >= maxLen) return r;
			check(q, LC(1), "read"); Lin a = norm(lin(q)); if (a.sym >= 0) throw Undec{"a string at an unknown offset"};
			if (!rd(q.obj).runs.empty() && runAt(rd(q.obj), a)) throw Undec{"file contents used as a string"};
			if (rd(q.obj).unknown) throw Undec{"a string outside the program"};
			Byte b = getB(rd(q.obj), a.c);
			if (b.k == 1) { if (!b.v && maxLen < 0) return r; r.push_back(b.v); }
			else if (b.k == 2 && b.ref->k == Val::Num && b.n == 1 && b.ref->sym >= 0) { Sym s = S->syms[b.ref->sym]; if (s.lo == s.hi) r.push_back((int)(b.ref->c + b.ref->m * s.lo) & 255); else r.push_back(-1 - b.ref->sym); }
			else if (b.k == 2) throw Undec{"an unknown byte in a string"};
			else throw Bad{"an uninitialised byte is used as text"};
			if (r.size() > 100000) throw Undec{"a very long string"};
		}
	}
	static string text(const vector<int> &v) { string s; for (int x : v) s += x >= 0 ? (char)x : '?'; return s; }
	string str(const Val &p) { return text(cstr(p)); }
	string strC(const Val &p) { auto v = cstr(p); for (int x : v) if (x < 0) throw Undec{"an unknown string where a known one is needed"}; return text(v); }
	// three-way comparison of byte sequences of equal length n
	// a comparison of the same two strings has the same result each time
	Val compare(const vector<int> &a, const vector<int> &b)
	{
		size_t n = std::min(a.size(), b.size()); bool sw = false, any = false; for (size_t i = 0; i < n && !any; ++i) if (a[i] < 0 || b[i] < 0) { any = true; sw = b[i] < 0; }
		if (!any) return compare1(a, b);
		const vector<int> &x = sw ? b : a, &y = sw ? a : b; string key = std::to_string(n) + ":"; for (size_t i = 0; i < n; ++i) key += std::to_string(x[i]) + "," + std::to_string(y[i]) + ";";
		auto i = S->cmp.find(key); Val v;
		if (i != S->cmp.end()) v = i->second; else { v = compare1(x, y); S->cmp[key] = v; }
		if (v.k == Val::Num) { Lin l = norm(lin(v)); v = fromLin(l); if (sw) { v.c = -v.c; v.m = -v.m; } }
		return v;
	}
	Val compare1(const vector<int> &a, const vector<int> &b)
	{
		size_t n = std::min(a.size(), b.size()); bool sym = false;
		for (size_t i = 0; i < n; ++i)
		{
			if (a[i] >= 0 && b[i] >= 0) { if (a[i] != b[i] && !sym) return Val::num(a[i] < b[i] ? -1 : 1); if (a[i] != b[i]) { Val v; v.k = Val::Num; v.sym = newSym(0, 1); v.m = 2; v.c = -1; return v; } continue; }
			if (a[i] == b[i]) continue;
			if (a[i] < 0 && b[i] < 0) throw Undec{"comparison of two unknown strings"};
			int s = a[i] < 0 ? -1 - a[i] : -1 - b[i], x = a[i] < 0 ? b[i] : a[i];
			if (x < S->syms[s].lo || x > S->syms[s].hi) { Val v; v.k = Val::Num; v.sym = newSym(0, 1); v.m = 2; v.c = -1; return v; }
			sym = true;
		}
		if (!sym) return Val::num(0);
		string key; int first = -1; for (size_t i = 0; i < n; ++i) { int s = a[i] < 0 ? -1 - a[i] : b[i] < 0 ? -1 - b[i] : -1; if (first < 0 && s >= 0) first = s; key += (char)(a[i] >= 0 ? a[i] : b[i]); }
		bool ex = false; for (auto &e : S->excl) if (e.first == first && e.second == key) ex = true;
		if (!ex && choose(2) == 0)
		{
			for (size_t i = 0; i < n; ++i) { int s = a[i] < 0 ? -1 - a[i] : b[i] < 0 ? -1 - b[i] : -1; if (s >= 0) { int x = a[i] < 0 ? b[i] : a[i]; S->syms[s] = {x, x}; } }
			return Val::num(0);
		}
		if (!ex) S->excl.push_back({first, key});
		Val v; v.k = Val::Num; v.sym = newSym(0, 1); v.m = 2; v.c = -1; return v;
	}

	// ------------------------------------------------------------ constants and globals
	uint32_t globalObj(const GlobalValue *g)
	{
		auto i = S->globals.find(g); if (i != S->globals.end()) return i->second;
		if (auto *A = dyn_cast<GlobalAlias>(g)) { auto *t = dyn_cast<GlobalValue>(A->getAliasee()); if (!t) throw Undec{"an alias"}; return globalObj(t); }
		uint32_t o;
		if (auto *f = dyn_cast<Function>(g)) { o = newObj(f->getName().str(), LC(1), false); wr(o).fn = f; S->globals[g] = o; return o; }
		auto *gv = cast<GlobalVariable>(g);
		o = newObj(gv->getName().str(), LC((int64_t)DL.getTypeAllocSize(gv->getValueType())), false); S->globals[g] = o;
		if (!gv->hasInitializer()) { wr(o).unknown = true; return o; }
		wr(o).fill = 1; initC(o, 0, gv->getInitializer()); wr(o).ro = gv->isConstant();
		return o;
	}
	void initC(uint32_t o, int64_t off, const Constant *c)
	{
		Type *T = c->getType();
		if (c->isNullValue() || isa<UndefValue>(c)) return;
		if (auto *cd = dyn_cast<ConstantDataSequential>(c))
		{
			StringRef raw = cd->getRawDataValues(); Obj &ob = wr(o);
			for (size_t i = 0; i < raw.size(); ++i) { Byte b; b.k = 1; b.v = (uint8_t)raw[i]; setB(ob, off + (int64_t)i, b); }
			return;
		}
		if (auto *ca = dyn_cast<ConstantAggregate>(c))
		{
			for (unsigned i = 0; i < ca->getNumOperands(); ++i)
			{
				int64_t d = T->isStructTy() ? (int64_t)DL.getStructLayout(cast<StructType>(T))->getElementOffset(i) : (int64_t)(i * DL.getTypeAllocSize(ca->getOperand(i)->getType()));
				initC(o, off + d, ca->getOperand(i));
			}
			return;
		}
		Val v = constant(c); bool ro = rd(o).ro; wr(o).ro = false; storeN(Val::ptr(o, off), (unsigned)DL.getTypeStoreSize(T), v); wr(o).ro = ro;
	}
	Val constant(const Constant *c)
	{
		if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { if (i->getValue().getSignificantBits() <= 64) return Val::num(i->getValue().getSExtValue()); return Val::top(); } return Val::num(canon((int64_t)i->getZExtValue(), i->getBitWidth())); }
		if (isa<ConstantPointerNull>(c)) return Val::num(0);
		if (isa<UndefValue>(c)) return Val();
		if (auto *g = dyn_cast<GlobalValue>(c)) return Val::ptr(globalObj(g));
		if (auto *ce = dyn_cast<ConstantExpr>(c))
		{
			if (auto *gep = dyn_cast<GEPOperator>(ce))
			{
				APInt off(64, 0); if (!gep->accumulateConstantOffset(DL, off)) throw Undec{"a constant expression"};
				Val v = constant(cast<Constant>(gep->getPointerOperand())); v.c += off.getSExtValue(); return v;
			}
			if (ce->isCast()) return constant(ce->getOperand(0));
			throw Undec{"a constant expression"};
		}
		if (c->getType()->isAggregateType())
		{
			Val v; v.k = Val::AggK; v.agg = make_shared<vector<Val>>(); unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
			for (unsigned i = 0; i < n; ++i) v.agg->push_back(constant(c->getAggregateElement(i)));
			return v;
		}
		return Val::top();
	}
	FnInfo *info(const Function *F)
	{
		FnInfo &fi = fis[F]; if (fi.n == 0) { for (auto &a : F->args()) fi.slot[&a] = fi.n++; for (auto &b : *F) for (auto &i : b) fi.slot[&i] = fi.n++; if (!fi.n) fi.n = 1; }
		return &fi;
	}
	Val op(const Value *v)
	{
		if (auto *c = dyn_cast<Constant>(v)) return constant(c);
		Frame &f = S->fr.back(); auto i = f.fi->slot.find(v); if (i == f.fi->slot.end()) return Val::top();
		Val r = f.v[i->second]; if (r.k == Val::Num && r.sym >= 0) { Lin l = norm(lin(r)); r.c = l.c; r.m = l.m; r.sym = l.sym; } return r;
	}
	string loc(const Instruction *I)
	{
		if (auto &d = I->getDebugLoc()) { const DILocation *l = d.get(); return (l->getFilename() + ":" + Twine(l->getLine())).str(); }
		return "";
	}
	// innermost source position that belongs to the program itself
	string here()
	{
		for (size_t i = S->fr.size(); i-- > 0;)
		{
			Frame &f = S->fr[i]; if (f.it == f.bb->end()) continue; const Instruction *I = &*f.it;
			for (const DILocation *l = I->getDebugLoc().get(); l; l = l->getInlinedAt()) if (l->getFilename().ends_with(mainFile)) { string fn = l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : ""; return (l->getFilename() + ":" + Twine(l->getLine())).str() + " in " + (fn.empty() ? f.F->getName().str() : fn); }
		}
		return "";
	}

	// ------------------------------------------------------------ integer operations
	void fit(const Lin &l, unsigned w) { I128 a = lo(l), b = hi(l); I128 mn = -((I128)1 << (w - 1)), mx = ((I128)1 << (w - 1)) - 1; if (a < mn || b > mx) throw Undec{"arithmetic on an unknown value may wrap around"}; }
	Val fromLin(Lin l, uint32_t obj = 0) { l = norm(l); Val v; v.k = Val::Num; v.obj = obj; v.c = l.c; v.m = l.m; v.sym = l.sym; return v; }
	// make a value non-negative as an unsigned number of width w, splitting at zero
	Lin uns(const Val &v, unsigned w)
	{
		Lin l = norm(lin(v)); if (w == 1) return l;
		if (l.sym < 0) { if (l.c < 0) { if (w == 64) return l; l.c += (int64_t)1 << w; } return l; }
		if (lo(l) >= 0) return l;
		if (hi(l) < 0) { if (w == 64) throw Undec{"a large unsigned value"}; l.c += (int64_t)1 << w; return l; }
		Lin d = l; sign(d); throw Undec{"sign"};
	}
	Val binop(const Instruction *I, unsigned opc, const Val &a, const Val &b, unsigned w)
	{
		if (a.k == Val::Undef || b.k == Val::Undef) return Val();
		if (a.k != Val::Num || b.k != Val::Num) return Val::top();
		if (a.isC() && b.isC() && w <= 64)
		{
			int64_t x = a.c, y = b.c; uint64_t m = w >= 64 ? ~0ull : ((1ull << w) - 1), ux = (uint64_t)x & m, uy = (uint64_t)y & m; uint64_t r;
			switch (opc)
			{
				case Instruction::Add: r = ux + uy; break; case Instruction::Sub: r = ux - uy; break; case Instruction::Mul: r = ux * uy; break;
				case Instruction::UDiv: if (!uy) throw Bad{"division by zero"}; r = ux / uy; break; case Instruction::URem: if (!uy) throw Bad{"division by zero"}; r = ux % uy; break;
				case Instruction::SDiv: if (!y) throw Bad{"division by zero"}; r = y == -1 ? (uint64_t)0 - ux : (uint64_t)(x / y); break; case Instruction::SRem: if (!y) throw Bad{"division by zero"}; r = y == -1 ? 0 : (uint64_t)(x % y); break;
				case Instruction::And: r = ux & uy; break; case Instruction::Or: r = ux | uy; break; case Instruction::Xor: r = ux ^ uy; break;
				case Instruction::Shl: if (uy >= w) return Val(); r = ux << uy; break; case Instruction::LShr: if (uy >= w) return Val(); r = ux >> uy; break;
				case Instruction::AShr: if (uy >= w) return Val(); r = (uint64_t)(x >> uy); break;
				default: return Val::top();
			}
			return Val::num(canon((int64_t)r, w));
		}
		switch (opc)
		{
			case Instruction::Add:
			{
				if (a.obj && b.obj) return Val::top();
				Lin r; if (!addLin(lin(a), lin(b), 1, r)) return Val::top(); if (!a.obj && !b.obj) fit(r, w); return fromLin(r, a.obj | b.obj);
			}
			case Instruction::Sub:
			{
				if (b.obj && a.obj != b.obj) return Val::top();
				Lin r; if (!addLin(lin(a), lin(b), -1, r)) return Val::top(); if (!a.obj || b.obj) fit(r, w); return fromLin(r, b.obj ? 0 : a.obj);
			}
			case Instruction::Mul: case Instruction::Shl:
			{
				if (a.obj || b.obj) return Val::top();
				Val x = a, y = b; if (opc == Instruction::Mul && a.isC()) std::swap(x, y); if (!y.isC()) return Val::top();
				int64_t k = opc == Instruction::Shl ? (y.c < 62 ? (int64_t)1 << y.c : 0) : y.c; if (!k && opc == Instruction::Shl) return Val::top();
				if (k > (1ll << 40) || k < -(1ll << 40) || x.m > (1ll << 20) || x.m < -(1ll << 20)) return Val::top();
				Lin r = lin(x); I128 c = (I128)r.c * k; if (c > (I128)INT64_MAX || c < (I128)INT64_MIN) return Val::top(); r.c *= k; r.m *= k; if (!r.m) r.sym = -1; fit(r, w); return fromLin(r);
			}
			case Instruction::AShr: case Instruction::SDiv: case Instruction::LShr: case Instruction::UDiv:
			{
				if (a.obj || !b.isC()) return Val::top(); int64_t k = (opc == Instruction::AShr || opc == Instruction::LShr) ? (b.c < 62 ? (int64_t)1 << b.c : 0) : b.c; if (k <= 0) return Val::top();
				Lin l = norm(lin(a)); if (k == 1) return a; if (opc == Instruction::LShr || opc == Instruction::UDiv) { if (lo(l) < 0) return Val::top(); }
				if (l.c % k == 0 && l.m % k == 0) { l.c /= k; l.m /= k; return fromLin(l); }
				if (lo(l) >= 0) { Val v; v.k = Val::Num; I128 x = lo(l) / k, y = hi(l) / k; if (x == y) return Val::num((int64_t)x); }
				return Val::top();
			}
			case Instruction::And:
			{
				if (a.obj || b.obj) return Val::top(); Val x = a, y = b; if (a.isC()) std::swap(x, y); if (!y.isC()) return Val::top();
				if (y.c == 0) return Val::num(0); if (y.c == -1) return x;
				if (y.c > 0 && ((y.c + 1) & y.c) == 0) { Lin l = lin(x); if (lo(l) >= 0 && hi(l) <= y.c) return x; }
				return Val::top();
			}
			case Instruction::Or: case Instruction::Xor: if (a.isC() && a.c == 0) return b; if (b.isC() && b.c == 0) return a; if (w == 1) { Val x = a, y = b; if (a.isC()) std::swap(x, y); if (y.isC() && !x.obj && x.sym >= 0) { sign(lin(x)); } } return Val::top();
			case Instruction::URem: case Instruction::SRem: { if (a.obj || !b.isC() || b.c <= 0) return Val::top(); Lin l = norm(lin(a)); if (lo(l) >= 0 && hi(l) < b.c) return a; return Val::top(); }
		}
		return Val::top();
	}
	Val icmp(CmpInst::Predicate p, Val a, Val b, unsigned w)
	{
		if (a.k == Val::SByte && w == 8) a = byteVal(a, true); if (b.k == Val::SByte && w == 8) b = byteVal(b, true);
		if (a.k == Val::Undef || b.k == Val::Undef) throw Undec{"a comparison with an undefined value"};
		if (a.k != Val::Num || b.k != Val::Num) throw Undec{"a comparison that depends on a value the analysis does not follow"};
		bool eq = p == CmpInst::ICMP_EQ, ne = p == CmpInst::ICMP_NE;
		if (a.obj != b.obj)
		{
			if (eq || ne)
			{
				// an object's address differs from null, from small integers and from other objects' addresses
				return Val::num(ne);
			}
			if (a.obj && b.obj) { bool lt = a.obj < b.obj; bool r = (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE) ? lt : !lt; return Val::num(r); }
			Val &o = a.obj ? a : b; (void)o; bool aBig = a.obj != 0;
			if ((aBig ? b : a).isC() && (aBig ? b : a).c >= 0 && (aBig ? b : a).c < 4096) { bool gt = aBig; bool r = (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE) ? gt : !gt; return Val::num(r); }
			throw Undec{"a comparison of an address with a number"};
		}
		if (eq || ne)
		{
			Lin d; if (!addLin(lin(a), lin(b), -1, d)) { if (lo(lin(a)) > hi(lin(b)) || hi(lin(a)) < lo(lin(b))) return Val::num(ne); throw Undec{"a comparison of two unknowns"}; }
			return Val::num(isZero(d) == eq);
		}
		bool u = CmpInst::isUnsigned(p) && !a.obj; Lin x = lin(a), y = lin(b);
		int s;
		if (u && w == 64 && a.isC() && b.isC()) s = (uint64_t)a.c < (uint64_t)b.c ? -1 : (uint64_t)a.c > (uint64_t)b.c;
		else
		{
			if (u) {
				if (w == 64) // negative constants are huge
				{
					if (b.isC() && b.c < 0) { if (lo(norm(x)) >= 0) s = -1; else if (hi(norm(x)) < 0) s = sign(plus(x, y, -1)); else { sign(x); throw Undec{"sign"}; } goto done; }
					if (a.isC() && a.c < 0) { if (lo(norm(y)) >= 0) s = 1; else if (hi(norm(y)) < 0) s = sign(plus(x, y, -1)); else { sign(y); throw Undec{"sign"}; } goto done; }
					if (lo(norm(x)) < 0) { if (hi(norm(x)) >= 0) { sign(x); throw Undec{"sign"}; } if (lo(norm(y)) >= 0) { s = 1; goto done; } }
					if (lo(norm(y)) < 0) { if (hi(norm(y)) >= 0) { sign(y); throw Undec{"sign"}; } if (lo(norm(x)) >= 0) { s = -1; goto done; } }
				}
				else { x = uns(a, w); y = uns(b, w); }
			}
			Lin d; if (!addLin(x, y, -1, d)) { if (lo(x) > hi(y)) s = 1; else if (hi(x) < lo(y)) s = -1; else throw Undec{"a comparison of two unknowns"}; }
			else
			{
				// only the needed distinction is split
				I128 l = lo(norm(d)), h = hi(norm(d)); bool strictLt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT, ge = p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE;
				if (strictLt || ge) { if (l >= 0) s = 1; else if (h < 0) s = -1; else s = sign(d); if (s == 1 && l == 0) { return Val::num(ge); } }
				else { if (l > 0) s = 1; else if (h <= 0) s = -1; else s = sign(d); if (s <= 0) return Val::num(p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE); }
			}
		}
		done:
		bool r = false;
		switch (p)
		{
			case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = s < 0; break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = s <= 0; break;
			case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = s > 0; break; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = s >= 0; break; default: break;
		}
		return Val::num(r);
	}
	Val cast_(unsigned opc, const Val &v, Type *from, Type *to)
	{
		if (v.k != Val::Num) { if (v.k == Val::SByte && from->isIntegerTy(8) && (opc == Instruction::ZExt || opc == Instruction::SExt)) return byteVal(v, opc == Instruction::SExt); return v; }
		unsigned fw = from->isPointerTy() ? 64 : from->isIntegerTy() ? from->getIntegerBitWidth() : 0, tw = to->isPointerTy() ? 64 : to->isIntegerTy() ? to->getIntegerBitWidth() : 0;
		if (!fw || !tw) return Val::top();
		switch (opc)
		{
			case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return v;
			case Instruction::SExt: if (fw == 1) { if (!v.isC()) return Val::top(); return Val::num(v.c ? -1 : 0); } return v;
			case Instruction::ZExt: if (v.isC()) { if (fw >= 64) return v; return Val::num((int64_t)((uint64_t)v.c & ((1ull << fw) - 1))); } if (v.obj) return Val::top(); return fromLin(uns(v, fw));
			case Instruction::Trunc:
			{
				if (v.isC()) return Val::num(canon(v.c, tw)); if (v.obj) return Val::top();
				Lin l = norm(lin(v)); I128 mn = -((I128)1 << (tw - 1)), mx = ((I128)1 << (tw - 1)) - 1; if (tw == 1) return Val::top();
				if (lo(l) >= mn && hi(l) <= mx) return v;
				if (lo(l) > mx && hi(l) < ((I128)1 << tw)) { l.c -= (int64_t)1 << tw; return fromLin(l); }
				if (l.m == 1 && l.sym >= 0 && S->symByte.count(l.sym) && tw == 8 && l.c % 256 == 0) { Val r = v; r.c = 0; Lin z = l; z.c = 0; if (lo(z) >= 128) r.c = -256; else if (hi(z) >= 128) split(l.sym, 128); return r; }
				if (hi(l) < mn || lo(l) > mx) return Val::top();
				// split at the edges of the target's range
				Lin e = l; if (lo(l) < mn) { e.c -= (int64_t)mn; sign(e); } e = l; e.c -= (int64_t)mx + 1; sign(e); throw Undec{"narrowing"};
			}
		}
		return Val::top();
	}

	// ------------------------------------------------------------ control
	void enter(const Function *F, const vector<Val> &args)
	{
		if (F->isDeclaration()) throw Undec{"a call of " + F->getName().str() + ", which the analysis does not know"};
		if (S->fr.size() > 200) throw Undec{"deep recursion"};
		Frame f; f.F = F; f.fi = info(F); f.bb = &F->getEntryBlock(); f.it = f.bb->begin(); f.v.resize(f.fi->n); visited.insert(F);
		for (unsigned i = 0; i < F->arg_size(); ++i)
		{
			Val v = i < args.size() ? args[i] : Val();
			if (i < args.size() && F->getArg(i)->hasByValAttr())
			{
				int64_t n = (int64_t)DL.getTypeAllocSize(F->getArg(i)->getParamByValType()); uint32_t o = newObj("byval", LC(n), false); copyMem(Val::ptr(o), v, LC(n)); f.allocas.push_back(o); v = Val::ptr(o);
			}
			f.v[i] = v;
		}
		for (size_t i = F->arg_size(); i < args.size(); ++i) f.va.push_back(args[i]);
		S->fr.push_back(std::move(f));
	}
	void leave() { for (uint32_t o : S->fr.back().allocas) { static const auto gone = [] { auto g = make_shared<Obj>(); g->name = "a local variable of a function that has returned"; g->freed = true; return g; }(); S->objs[o] = gone; } S->fr.pop_back(); }
	void jump(const BasicBlock *to)
	{
		Frame &f = S->fr.back(); const BasicBlock *from = f.bb; vector<std::pair<int, Val>> ph;
		for (auto &I : *to) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; ph.push_back({f.fi->slot[p], op(p->getIncomingValueForBlock(from))}); }
		for (auto &x : ph) f.v[x.first] = x.second;
		f.prev = from; f.bb = to; f.it = to->getFirstNonPHIIt();
	}
	void setRes(const Instruction *I, const Val &v) { Frame &f = S->fr.back(); f.v[f.fi->slot[I]] = v; }
	void advance() { ++S->fr.back().it; }
	void finishCall(const Val &r)
	{
		const Instruction *I = &*S->fr.back().it; if (!I->getType()->isVoidTy()) setRes(I, r);
		if (auto *iv = dyn_cast<InvokeInst>(I)) jump(iv->getNormalDest()); else advance();
	}
	static string tiName(const Value *v) { v = v->stripPointerCasts(); if (isa<ConstantPointerNull>(v)) return ""; return v->getName().str(); }
	bool derives(const GlobalVariable *t, const string &want)
	{
		if (!t) return false; if (t->getName() == want) return true; if (!t->hasInitializer()) return false;
		auto *c = t->getInitializer();
		for (unsigned i = 2; i < c->getNumOperands(); ++i) if (auto *b = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts())) if (b->getName().starts_with("_ZTI") && derives(b, want)) return true;
		return false;
	}
	int tid(const string &n) { static std::map<string, int> m; auto r = m.emplace(n, (int)m.size() + 1); return r.first->second; }
	bool ended = false; int exitCode = 0; string endKind;
	void finish(const string &kind, int code) { ended = true; endKind = kind; exitCode = code; S->exitWhere = here(); }
	void unwind(Exc e)
	{
		S->cur = e;
		for (;;)
		{
			if (S->fr.empty()) { finish("uncaught exception", 134); return; }
			const Instruction *I = &*S->fr.back().it;
			if (auto *iv = dyn_cast<InvokeInst>(I))
			{
				const LandingPadInst *lp = iv->getLandingPadInst(); int sel = -1;
				for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; ++i)
				{
					if (lp->isCatch(i)) { string w = tiName(lp->getClause(i)); if (w.empty() || derives(e.ti, w)) sel = tid(w); }
					else sel = -2; // an exception specification
				}
				if (sel == -2) { finish("terminate", 134); return; }
				if (sel >= 0 || lp->isCleanup())
				{
					jump(iv->getUnwindDest()); Val v; v.k = Val::AggK; v.agg = make_shared<vector<Val>>(); v.agg->push_back(Val::ptr(e.obj)); v.agg->push_back(Val::num(sel < 0 ? 0 : sel));
					setRes(lp, v); S->fr.back().it = std::next(lp->getIterator()); return;
				}
			}
			if (S->fr.size() == 1) { S->exitWhere = here(); finish("uncaught exception", 134); return; }
			leave();
		}
	}
	void run()
	{
		// runs until the path ends; forks are thrown to the caller before an instruction takes effect
		while (!ended)
		{
			if (++S->steps > stepLimit) throw Undec{"the path is too long"};
			++totalSteps;
			step();
			S->choices.clear(); S->used = 0;
		}
	}
	void step();
	bool library(const CallBase *cb, const Function *F, const string &n, vector<Val> &a);
	string format(const string &f, const vector<Val> &a, size_t ai);
	string signature(int file);
	int histOf(Hist &h);
	string histText(int id);
	void env(const string &e)
	{
		if (e == "read full" && !S->env.empty() && S->env.back().compare(0, 9, "read full") == 0) { long k = S->env.back().size() > 11 ? strtol(S->env.back().c_str() + 11, nullptr, 10) : 1; S->env.back() = "read full x" + std::to_string(k + 1); return; }
		S->env.push_back(e);
	}
	void emit(int fd, const string &s) { S->out[fd] += s; if (fd == 1 && s.find("c0dec0de") != string::npos) S->where = here(); covLines.insert(here()); if (S->out[fd].size() > 100000) throw Undec{"very long output"}; }
};

void Ana::step()
{
	Frame &f = S->fr.back(); const Instruction *I = &*f.it;
	if (S->choices.empty() && S->used == 0 && I->getDebugLoc() && I->getDebugLoc()->getFilename().ends_with(mainFile)) covLines.insert(std::to_string(I->getDebugLoc()->getLine()));
	switch (I->getOpcode())
	{
		case Instruction::Alloca:
		{
			auto *A = cast<AllocaInst>(I); Val n = op(A->getArraySize()); if (!n.isC()) throw Undec{"a variable-sized local array"};
			uint32_t o = newObj(A->getName().str().empty() ? "local" : A->getName().str(), LC((int64_t)DL.getTypeAllocSize(A->getAllocatedType()) * n.c), false);
			S->fr.back().allocas.push_back(o); setRes(I, Val::ptr(o)); advance(); return;
		}
		case Instruction::Load: { Val r = loadT(I->getType(), op(I->getOperand(0))); setRes(I, r); advance(); return; }
		case Instruction::Store: { storeT(I->getOperand(0)->getType(), op(I->getOperand(1)), op(I->getOperand(0))); advance(); return; }
		case Instruction::GetElementPtr:
		{
			Val p = op(I->getOperand(0)); if (p.k != Val::Num) { setRes(I, p.k == Val::Undef ? Val() : Val::top()); advance(); return; }
			Lin l = lin(p); bool ok = true;
			for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge && ok; ++gi)
			{
				if (StructType *st = gi.getStructTypeOrNull()) { l.c += (int64_t)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
				Val x = op(gi.getOperand()); if (x.k != Val::Num || x.obj) { ok = false; break; }
				int64_t sz = (int64_t)DL.getTypeAllocSize(gi.getIndexedType()); Lin k = lin(x); k.c *= sz; k.m *= sz; if (!addLin(l, k, 1, l)) ok = false;
			}
			setRes(I, ok ? fromLin(l, p.obj) : Val::top()); advance(); return;
		}
		case Instruction::ICmp: { auto *c = cast<ICmpInst>(I); if (!c->getOperand(0)->getType()->isIntegerTy() && !c->getOperand(0)->getType()->isPointerTy()) throw Undec{"a vector comparison"}; Type *T = c->getOperand(0)->getType(); Val r = icmp(c->getPredicate(), op(c->getOperand(0)), op(c->getOperand(1)), T->isPointerTy() ? 64 : T->getIntegerBitWidth()); setRes(I, r); advance(); return; }
		case Instruction::Select:
		{
			Val c = op(I->getOperand(0)); if (c.k != Val::Num) throw Undec{"a selection the analysis cannot follow"}; bool t = c.isC() ? c.c & 1 : !isZero(lin(c));
			Val r = op(I->getOperand(t ? 1 : 2)); setRes(I, r); advance(); return;
		}
		case Instruction::Br:
		{
			auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { jump(b->getSuccessor(0)); return; }
			Val c = op(b->getCondition()); if (c.k != Val::Num) throw Undec{"a branch the analysis cannot follow"}; bool t = c.isC() ? c.c & 1 : !isZero(lin(c)); jump(b->getSuccessor(t ? 0 : 1)); return;
		}
		case Instruction::Switch:
		{
			auto *s = cast<SwitchInst>(I); Val c = op(s->getCondition()); if (c.k != Val::Num || c.obj) throw Undec{"a switch the analysis cannot follow"};
			for (auto &cs : s->cases()) { Lin d = lin(c); d.c -= canon((int64_t)cs.getCaseValue()->getZExtValue(), cs.getCaseValue()->getBitWidth()); if (isZero(d)) { jump(cs.getCaseSuccessor()); return; } }
			jump(s->getDefaultDest()); return;
		}
		case Instruction::Ret:
		{
			Val r = I->getNumOperands() ? op(I->getOperand(0)) : Val();
			if (S->fr.size() == 1) { if (r.k == Val::Num && r.sym >= 0) throw Undec{"an unknown exit status"}; finish("return", r.isC() ? (int)(r.c & 255) : 0); return; }
			leave(); finishCall(r); return;
		}
		case Instruction::Unreachable: throw Bad{"an unreachable point is reached"};
		case Instruction::Resume: { Val v = op(I->getOperand(0)); Exc e = S->cur; if (v.k == Val::AggK && (*v.agg)[0].obj) { auto i = S->excObj.find((*v.agg)[0].obj); if (i != S->excObj.end()) e = i->second; } unwind2: if (S->fr.size() == 1) { finish("uncaught exception", 134); return; } leave(); unwind(e); return; goto unwind2; }
		case Instruction::ExtractValue: { Val v = op(I->getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { if (v.k != Val::AggK) break; v = Val((*v.agg)[i]); } setRes(I, v); advance(); return; }
		case Instruction::InsertValue:
		{
			auto *iv = cast<InsertValueInst>(I); Val v = op(I->getOperand(0)), x = op(I->getOperand(1)); if (iv->getNumIndices() != 1) { setRes(I, Val::top()); advance(); return; }
			Type *T = I->getType(); unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements(); Val r; r.k = Val::AggK; r.agg = make_shared<vector<Val>>(n); if (v.k == Val::AggK) *r.agg = *v.agg;
			(*r.agg)[iv->getIndices()[0]] = x; setRes(I, r); advance(); return;
		}
		case Instruction::Freeze: { setRes(I, op(I->getOperand(0))); advance(); return; }
		case Instruction::Fence: advance(); return;
		case Instruction::Call: case Instruction::Invoke:
		{
			auto *cb = cast<CallBase>(I); Val cv; const Function *F = cb->getCalledFunction();
			if (!F) { if (cb->isInlineAsm()) { finishCall(Val::top()); return; } cv = op(cb->getCalledOperand()); if (cv.k != Val::Num || !cv.obj || !rd(cv.obj).fn) { if (cv.isC() && cv.c == 0) throw Bad{"a call through a null function pointer"}; throw Undec{"a call through an unknown pointer"}; } F = rd(cv.obj).fn; }
			if (auto *ii = dyn_cast<IntrinsicInst>(I))
			{
				switch (ii->getIntrinsicID())
				{
					case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: finishCall(Val()); return;
					case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Val d = op(I->getOperand(0)), s = op(I->getOperand(1)), n = op(I->getOperand(2)); if (n.k != Val::Num) throw Undec{"a copy of unknown length"}; copyMem(d, s, lin(n)); finishCall(Val()); return; }
					case Intrinsic::memset: { Val n = op(I->getOperand(2)); if (n.k != Val::Num) throw Undec{"a fill of unknown length"}; setMem(op(I->getOperand(0)), op(I->getOperand(1)), lin(n)); finishCall(Val()); return; }
					case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: finishCall(op(I->getOperand(0))); return;
					case Intrinsic::is_constant: finishCall(Val::num(0)); return;
					case Intrinsic::objectsize: finishCall(Val::num(-1)); return;
					case Intrinsic::eh_typeid_for: finishCall(Val::num(tid(tiName(I->getOperand(0))))); return;
					case Intrinsic::trap: case Intrinsic::debugtrap: finish("trap", 134); return;
					case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
					{
						Val a = op(I->getOperand(0)), b = op(I->getOperand(1)); auto id = ii->getIntrinsicID(); bool sg = id == Intrinsic::smax || id == Intrinsic::smin;
						bool lt = icmp(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, a, b, I->getType()->getIntegerBitWidth()).c; bool mx = id == Intrinsic::smax || id == Intrinsic::umax; finishCall(lt == mx ? b : a); return;
					}
					case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow:
					{
						Val a = op(I->getOperand(0)), b = op(I->getOperand(1)); unsigned w = I->getType()->getStructElementType(0)->getIntegerBitWidth(); Val r; r.k = Val::AggK; r.agg = make_shared<vector<Val>>(); bool ov = false; bool mul = ii->getIntrinsicID() == Intrinsic::umul_with_overflow;
						Val x = binop(I, mul ? Instruction::Mul : Instruction::Add, a, b, w);
						if (a.isC() && b.isC() && w == 64) { uint64_t t; ov = mul ? __builtin_mul_overflow((uint64_t)a.c, (uint64_t)b.c, &t) : __builtin_add_overflow((uint64_t)a.c, (uint64_t)b.c, &t); }
						r.agg->push_back(x); r.agg->push_back(Val::num(ov)); finishCall(r); return;
					}
					default: throw Undec{"the operation " + F->getName().str()};
				}
			}
			vector<Val> args; for (auto &u : cb->args()) args.push_back(u->getType()->isMetadataTy() ? Val() : op(u));
			if (library(cb, F, F->getName().str(), args)) return;
			enter(F, args); return;
		}
		default:
			if (auto *bo = dyn_cast<BinaryOperator>(I)) { Val r = I->getType()->isIntegerTy() ? binop(I, I->getOpcode(), op(bo->getOperand(0)), op(bo->getOperand(1)), I->getType()->getIntegerBitWidth()) : Val::top(); setRes(I, r); advance(); return; }
			if (auto *ci = dyn_cast<CastInst>(I)) { Val r = cast_(I->getOpcode(), op(ci->getOperand(0)), ci->getSrcTy(), ci->getDestTy()); setRes(I, r); advance(); return; }
			if (I->getOpcode() == Instruction::FNeg || I->getOpcode() == Instruction::FCmp) { if (I->getOpcode() == Instruction::FCmp) throw Undec{"a floating-point comparison"}; setRes(I, Val::top()); advance(); return; }
			throw Undec{string("the instruction ") + I->getOpcodeName()};
	}
}

string Ana::format(const string &f, const vector<Val> &a, size_t ai)
{
	string o;
	for (size_t i = 0; i < f.size(); ++i)
	{
		if (f[i] != '%') { o += f[i]; continue; }
		++i; if (i >= f.size()) throw Bad{"an incomplete conversion in a format string"};
		if (f[i] == '%') { o += '%'; continue; }
		string spec = "%"; while (i < f.size() && strchr("-+ #0123456789.*", f[i])) { if (f[i] == '*') { if (ai >= a.size() || !a[ai].isC()) throw Undec{"a format width"}; spec += std::to_string(a[ai++].c); ++i; } else spec += f[i++]; }
		int l = 0; while (i < f.size() && strchr("hlzjt", f[i])) { l += f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't'; if (f[i] == 'h') --l; ++i; }
		if (i >= f.size()) throw Bad{"an incomplete conversion in a format string"};
		if (ai >= a.size()) throw Bad{"a format string asks for an argument that is not given"};
		Val v = a[ai++]; char buf[512];
		switch (f[i])
		{
			case 's': { string t; size_t dot = spec.find('.'); if (dot != string::npos) { t = text(cstr(v, (int64_t)strtoul(spec.c_str() + dot + 1, nullptr, 10))); size_t z = t.find('\0'); if (z != string::npos) t.resize(z); spec.resize(dot); } else t = str(v); size_t w = strtoul(spec.c_str() + 1 + (spec.size() > 1 && spec[1] == '-'), nullptr, 10); while (t.size() < w) t = spec[1] == '-' ? t + " " : " " + t; o += t; break; }
			case 'd': case 'i': case 'u': case 'x': case 'X': case 'o':
				if (v.k != Val::Num || v.obj || v.sym >= 0) { o += "?"; break; }
				{ long long x = v.c; if (f[i] != 'd' && f[i] != 'i') { if (l <= -2) x &= 0xff; else if (l == -1) x &= 0xffff; else if (l == 0) x &= 0xffffffffll; } else if (l == 0) x = (int)x; spec += "ll"; spec += f[i]; snprintf(buf, sizeof buf, spec.c_str(), x); o += buf; } break;
			case 'c': if (!v.isC()) { o += "?"; break; } o += (char)v.c; break;
			case 'p': o += "ptr"; break;
			default: throw Undec{string("the conversion %") + f[i]};
		}
	}
	return o;
}

int Ana::histOf(Hist &h)
{
	// join neighbouring stream segments
	vector<Seg> j;
	for (auto &s : h.seg) { if (!j.empty() && s.kind == 0 && j.back().kind == 0 && j.back().file == s.file && isZero(plus(plus(j.back().pos, j.back().len), s.pos, -1))) j.back().len = norm(plus(j.back().len, s.len)); else j.push_back(s); }
	h.seg = j;
	std::ostringstream o; o << h.cls << '|' << h.length.c << ',' << h.length.m << ',' << h.length.sym << '|' << h.name << '|' << h.custom << '|' << h.fin << '|' << h.desc;
	for (auto &s : h.seg) o << '[' << s.kind << ' ' << s.lit << ' ' << s.pos.c << '+' << s.pos.m << '*' << s.pos.sym << ' ' << s.len.c << '+' << s.len.m << '*' << s.len.sym << ' ' << s.file << ']';
	auto r = histIx.emplace(o.str(), (int)hists.size()); if (r.second) { hists.push_back(h); hists.back().key = o.str(); }
	return (int)HB + r.first->second;
}

string Ana::signature(int file)
{
	std::ostringstream o; std::map<uint32_t, int> num; vector<uint32_t> work; Lin P = norm(S->files[file].pos);
	auto L = [&](Lin l) { l = norm(l); o << l.c; if (l.sym >= 0) o << '+' << l.m << '*' << l.sym << '(' << S->syms[l.sym].lo << ',' << S->syms[l.sym].hi << ')'; };
	std::function<void(const Val &)> V = [&](const Val &v)
	{
		o << (int)v.k << ':';
		if (v.k == Val::AggK) { for (auto &x : *v.agg) V(x); return; }
		if (v.k == Val::SByte) { Lin d; if (!addLin(lin(v), P, -1, d)) d = lin(v); L(d); o << 'f' << v.obj; return; }
		if (v.k != Val::Num) return;
		if (v.obj) { auto r = num.emplace(v.obj, (int)num.size()); if (r.second) work.push_back(v.obj); o << 'o' << r.first->second << '@'; }
		Lin l = norm(lin(v));
		if (!v.obj && l.sym < 0 && l.c >= HB && l.c < HB + (int64_t)hists.size())
		{
			Hist &h = hists[l.c - HB]; bool all = (h.seg.size() == 1 && h.seg[0].kind == 0 && h.seg[0].file == file && isZero(h.seg[0].pos) && norm(h.seg[0].len) == P) || (h.seg.empty() && P == LC(0));
			if (all) { o << "H" << h.cls << ',' << h.length.c << ',' << h.length.sym << ',' << h.name << ',' << h.custom << h.fin << h.desc << "all"; return; }
		}
		L(l); o << ';';
	};
	for (auto &f : S->fr) { o << '\n' << f.F->getName().str() << ' ' << (const void *)&*f.it << ' '; for (auto &v : f.v) { V(v); o << ','; } }
	for (auto &e : S->excl) o << e.first << e.second; for (auto &x : S->env) if (x.compare(0, 4, "read") != 0) o << x;
	o << S->out[1].size() << '/' << S->out[2].size() << '/' << file << '/' << S->files[file].st;
	for (auto &g : S->globals) { auto r = num.emplace(g.second, (int)num.size()); if (r.second && !rd(g.second).ro && !rd(g.second).fn) work.push_back(g.second); }
	while (!work.empty())
	{
		uint32_t x = work.back(); work.pop_back(); Obj &b = rd(x); o << "\nO" << num[x] << ' '; if (b.freed) { o << "freed"; continue; } if (b.fn || b.ro) { o << b.name; continue; }
		L(b.size); o << (int)b.fill;
		for (auto &p : b.pages)
		{
			o << 'p' << p.first << ' '; for (size_t yi = 0; yi < p.second->size(); ++yi)
			{
				const Byte &y = (*p.second)[yi];
				// a recorder's history is a plain integer in memory
				if (yi % 4 == 0 && y.k == 1 && yi + 3 < p.second->size()) { uint32_t x = 0; bool c = true; for (int j = 0; j < 4; ++j) { const Byte &z = (*p.second)[yi + j]; c &= z.k == 1; x |= (uint32_t)z.v << (8 * j); } if (c && (int64_t)x >= HB && (int64_t)x < HB + (int64_t)hists.size()) { V(Val::num(x)); yi += 3; continue; } }
				if (y.k == 2) { if (y.v == 0 || y.n == 1) { V(*y.ref); } else o << '\''; } else o << (int)y.k << '.' << (int)y.v << ' ';
			}
		}
		for (auto &r : b.runs) { o << 'r'; L(r.start); o << ','; L(r.len); o << ','; Lin d; if (r.file == file && addLin(r.pos, P, -1, d)) L(d); else L(r.pos); o << ',' << r.file; }
	}
	return o.str();
}

bool Ana::library(const CallBase *cb, const Function *F, const string &n, vector<Val> &a)
{
	auto ret = [&](const Val &v) { finishCall(v); return true; };
	auto sz = [&](size_t i) -> Lin { if (a[i].k != Val::Num || a[i].obj) throw Undec{"an unknown length"}; return norm(lin(a[i])); };
	auto fd = [&](const Val &v) -> int { if (v.k == Val::Num && v.obj) { if (rd(v.obj).name == "vp_stdout_obj") return 1; if (rd(v.obj).name == "vp_stderr_obj") return 2; } throw Undec{"output to an unknown stream"}; };
	static const std::set<string> own = {"vp_new", "vp_add", "vp_next", "vp_fin", "vp_text", "vp_open", "vp_stdin", "vp_read", "vp_out", "vp_done"};
	if (own.count(n))
	{
		if (n == "vp_new")
		{	// class, length, name ptr/len, custom ptr/len
			Hist h; h.cls = (int)a[0].c; h.length = a[1].k == Val::Num ? norm(lin(a[1])) : LC(-999999); if (a[1].k == Val::Undef) h.desc += "uninitialised length;";
			else if (a[1].k != Val::Num) throw Undec{"an unknown digest length"};
			auto tx = [&](const Val &p, const Val &l) { if (l.isC() && l.c == 0) return string(); if (!l.isC()) throw Undec{"a string of unknown length"}; return text(cstr(p, l.c)); };
			h.name = tx(a[2], a[3]); h.custom = tx(a[4], a[5]); S->notes.push_back("new " + std::to_string(h.cls) + " @" + here()); return ret(Val::num(histOf(h)));
		}
		if (n == "vp_open")
		{
			string nm = strC(a[0]); int c = choose(2); if (c == 1) { env("open fails"); return ret(Val::num(0)); }
			File f; f.name = nm; S->files.push_back(f); env("open ok"); return ret(Val::num((int64_t)S->files.size()));
		}
		if (n == "vp_stdin") { for (size_t i = 0; i < S->files.size(); ++i) if (S->files[i].name == "<stdin>") return ret(Val::num((int64_t)i + 1)); File f; f.name = "<stdin>"; S->files.push_back(f); return ret(Val::num((int64_t)S->files.size())); }
		if (n == "vp_out") { Lin l = sz(2); if (l.sym >= 0) throw Undec{"output of unknown length"}; string t = l.c ? text(cstr(a[1], l.c)) : ""; emit((int)a[0].c, t); return ret(Val()); }
		if (n == "vp_read")
		{
			if (!a[0].isC() || a[0].c < 1 || a[0].c > (int64_t)S->files.size()) throw Bad{"a read from a file that is not open"};
			int fi = (int)a[0].c - 1; Lin l = sz(2); if (l.sym >= 0) throw Undec{"a read of unknown length"}; if (l.c < 0) throw Bad{"a read of negative length"}; if (l.c == 0) return ret(Val::num(0));
			File &f0 = S->files[fi]; if (f0.st == 2) return ret(Val::num(-1)); if (f0.st == 1) return ret(Val::num(0));
			check(a[1], l, "write"); { Obj t = rd(a[1].obj); cutRuns(t, lin(a[1]), l); }
			if (S->choices.empty())
			{
				// far into a file that does not reach a fixpoint only some lengths are ended: around powers of two and every 256 reads
				int rdn = f0.reads + 1; bool ends = rdn <= 26 || rdn % 256 == 0; for (int q = 32; q <= rdn + 1; q *= 2) if (rdn >= q - 1 && rdn <= q + 2) ends = true;
				if (rdn > 26) { if (f0.reads >= maxReads) { ++bounded; throw Prune(); } if (!ends) throw Fork{1}; throw Fork{l.c > 1 ? 4 : 3}; }
				string sg = signature(fi); size_t hs = std::hash<string>()(sg); if (!seen.insert(std::to_string(hs) + "/" + std::to_string(sg.size())).second) { ++fix; throw Prune(); }
				if (f0.reads >= maxReads) { ++bounded; throw Prune(); }
			}
			// 0 all, 1 none left, 2 error, 3 fewer than asked for, 4 error after some
			int c = choose(l.c > 1 ? 4 : 3); File &f = S->files[fi]; f.reads++;
			if (c == 2) { f.st = 2; env("read error after " + std::to_string(f.reads - 1) + " reads"); return ret(Val::num(-1)); }
			if (c == 1) { f.st = 1; env("read end"); return ret(Val::num(0)); }
			Lin g = l; if (c == 3) { g.c = 0; g.m = 1; g.sym = newSym(1, l.c - 1); f.st = 1; env("read short"); }
			else env("read full");
			Lin st = norm(lin(a[1])); { Obj &o = wr(a[1].obj); cutRuns(o, st, g); addRun(o, Run{st, g, f.pos, fi}); }
			f.pos = norm(plus(f.pos, g)); return ret(fromLin(g));
		}
		if (!a[0].isC() || a[0].c < HB || a[0].c >= HB + (int64_t)hists.size()) throw Bad{"a hasher that was never constructed is used"};
		Hist h = hists[a[0].c - HB];
		if (n == "vp_add" || n == "vp_next")
		{
			Lin l = sz(2); auto c = content(a[1], l); if (h.fin) h.desc += "data after finalize;";
			if (n == "vp_next") h.seg.push_back(Seg{3, "item", LC(0), LC(0), 0}); h.seg.insert(h.seg.end(), c.begin(), c.end()); return ret(Val::num(histOf(h)));
		}
		if (n == "vp_fin") { h.fin = true; return ret(Val::num(histOf(h))); }
		if (n == "vp_text") { if (!h.fin) h.desc += "not finalized;"; int id = histOf(h); char b[40]; snprintf(b, sizeof b, "c0dec0de%08x%08x%08x", (unsigned)(id - HB), 0x1234567u ^ (unsigned)(id * 2654435761u), 0x9abcdefu); for (int i = 0; i < 33; ++i) storeN(Val::ptr(a[1].obj, a[1].c + i), 1, Val::num(b[i])); return ret(Val()); }
		return ret(Val());
	}
	if (!F->isDeclaration() && n != "main") return false;
	// ---- the C and C++ run-time library
	if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") { Lin l = sz(0); if (lo(l) < 0) throw Undec{"an allocation of unknown size"}; if (hi(l) > ((I128)1 << 40)) throw Undec{"a very large allocation"}; return ret(Val::ptr(newObj("heap block", l, true))); }
	if (n == "calloc") { Lin x = sz(0), y = sz(1); if (x.sym >= 0 || y.sym >= 0) throw Undec{"calloc"}; uint32_t o = newObj("heap block", LC(x.c * y.c), true); wr(o).fill = 1; return ret(Val::ptr(o)); }
	if (n == "realloc") throw Undec{"realloc"};
	if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t")
	{
		Val p = a[0]; if (p.isC() && p.c == 0) return ret(Val()); if (p.k != Val::Num || !p.obj) throw Undec{"release of an unknown pointer"};
		if (!rd(p.obj).heap || p.c || p.sym >= 0) throw Bad{"memory that was not allocated is released"}; if (rd(p.obj).freed) throw Bad{"memory is released twice"}; Obj &o = wr(p.obj); o.freed = true; o.pages.clear(); o.runs.clear(); return ret(Val());
	}
	if (n == "memcpy" || n == "memmove") { copyMem(a[0], a[1], sz(2)); return ret(a[0]); }
	if (n == "memset") { setMem(a[0], a[1], sz(2)); return ret(a[0]); }
	if (n == "strlen") { return ret(Val::num((int64_t)cstr(a[0]).size())); }
	if (n == "memcmp" || n == "bcmp" || n == "strcmp" || n == "strncmp")
	{
		if (n == "memcmp" || n == "bcmp") { Lin l = sz(2); if (l.sym >= 0) throw Undec{"a comparison of unknown length"}; if (!l.c) return ret(Val::num(0)); auto x = cstr(a[0], l.c), y = cstr(a[1], l.c); return ret(compare(x, y)); }
		auto x = cstr(a[0]), y = cstr(a[1]); if (n == "strncmp") { Lin l = sz(2); if (l.sym >= 0) throw Undec{"a comparison of unknown length"}; if ((int64_t)x.size() > l.c) x.resize(l.c); if ((int64_t)y.size() > l.c) y.resize(l.c); }
		if (x.size() == y.size()) return ret(compare(x, y));
		bool anySym = false; for (int q : x) anySym |= q < 0; for (int q : y) anySym |= q < 0;
		if (!anySym) return ret(Val::num(text(x) < text(y) ? -1 : 1));
		Val v; v.k = Val::Num; v.sym = newSym(0, 1); v.m = 2; v.c = -1; return ret(v);
	}
	if (n == "memchr" || n == "strchr" || n == "strrchr")
	{
		if (!a[1].isC()) throw Undec{n}; vector<int> x; if (n == "memchr") { Lin l = sz(2); if (l.sym >= 0) throw Undec{n}; x = cstr(a[0], l.c); } else { x = cstr(a[0]); x.push_back(0); }
		int64_t at = -1; for (size_t i = 0; i < x.size(); ++i) { if (x[i] < 0) { int s = -1 - x[i]; int64_t ch = a[1].c & 255; if (ch < S->syms[s].lo || ch > S->syms[s].hi) continue; if (S->syms[s].lo < ch) split(s, ch); split(s, ch + 1); } if (x[i] == (int)(a[1].c & 255)) { at = (int64_t)i; if (n != "strrchr") break; } }
		Val r = a[0]; if (at < 0) return ret(Val::num(0)); r.c += at; return ret(r);
	}
	if (n == "printf" || n == "__printf_chk") { size_t k = n == "printf" ? 0 : 1; string f = strC(a[k]); emit(1, format(f, a, k + 1)); return ret(Val::num(1)); }
	if (n == "fprintf") { int d = fd(a[0]); string f = strC(a[1]); emit(d, format(f, a, 2)); return ret(Val::num(1)); }
	if (n == "snprintf" || n == "sprintf")
	{
		size_t k = n == "sprintf" ? 1 : 2; string t = format(strC(a[k]), a, k + 1); int64_t cap = n == "sprintf" ? (int64_t)t.size() + 1 : sz(1).c; string u = t; if ((int64_t)u.size() >= cap) u.resize(cap > 0 ? cap - 1 : 0);
		if (cap > 0) { check(a[0], LC((int64_t)u.size() + 1), "write"); for (size_t i = 0; i <= u.size(); ++i) { Val p = a[0]; p.c += (int64_t)i; storeN(p, 1, Val::num(i < u.size() ? u[i] : 0)); } }
		return ret(Val::num((int64_t)t.size()));
	}
	if (n == "puts") { emit(1, str(a[0]) + "\n"); return ret(Val::num(1)); }
	if (n == "putchar") { if (!a[0].isC()) throw Undec{n}; emit(1, string(1, (char)a[0].c)); return ret(a[0]); }
	if (n == "fputs") { emit(fd(a[1]), str(a[0])); return ret(Val::num(1)); }
	if (n == "fputc" || n == "putc") { if (!a[0].isC()) throw Undec{n}; emit(fd(a[1]), string(1, (char)a[0].c)); return ret(a[0]); }
	if (n == "fwrite") { int d = fd(a[3]); Lin x = sz(1), y = sz(2); if (x.sym >= 0 || y.sym >= 0) throw Undec{n}; emit(d, text(cstr(a[0], x.c * y.c))); return ret(a[2]); }
	if (n == "fflush" || n == "setvbuf" || n == "setlocale") return ret(Val::num(0));
	if (n == "perror") { emit(2, "error\n"); return ret(Val()); }
	if (n == "strerror") { throw Undec{n}; }
	if (n == "exit" || n == "_Exit" || n == "_exit" || n == "quick_exit") { if (!a[0].isC()) throw Undec{"an unknown exit status"}; finish("exit", (int)(a[0].c & 255)); return true; }
	if (n == "abort" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") { finish("abort", 134); return true; }
	if (n == "__errno_location") { if (!S->errnoObj) { uint32_t o = newObj("errno", LC(4), false); wr(o).fill = 1; S->errnoObj = (int)o; } return ret(Val::ptr((uint32_t)S->errnoObj)); }
	if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") return ret(Val::num(0));
	if (n == "__cxa_guard_acquire") { Val g = loadN(a[0], 1, false); return ret(Val::num(g.isC() && g.c ? 0 : 1)); }
	if (n == "__cxa_guard_release") { storeN(a[0], 1, Val::num(1)); return ret(Val()); }
	if (n == "__cxa_guard_abort") return ret(Val());
	if (n == "__cxa_allocate_exception") { Lin l = sz(0); return ret(Val::ptr(newObj("exception", l, true))); }
	if (n == "__cxa_free_exception") return ret(Val());
	if (n == "__cxa_throw") { const GlobalVariable *ti = nullptr; for (auto &g : S->globals) if (g.second == a[1].obj) ti = dyn_cast<GlobalVariable>(g.first); Exc e{a[0].obj, ti}; S->excObj[a[0].obj] = e; S->caught.push_back(e); S->caught.pop_back(); unwind(e); return true; }
	if (n == "__cxa_begin_catch") { auto i = S->excObj.find(a[0].obj); S->caught.push_back(i == S->excObj.end() ? S->cur : i->second); return ret(a[0]); }
	if (n == "__cxa_get_exception_ptr") return ret(a[0]);
	if (n == "__cxa_end_catch") { if (!S->caught.empty()) S->caught.pop_back(); return ret(Val()); }
	if (n == "__cxa_rethrow") { if (S->caught.empty()) { finish("terminate", 134); return true; } unwind(S->caught.back()); return true; }
	if (n == "strtol" || n == "strtoll" || n == "__isoc23_strtol" || n == "__isoc23_strtoll" || n == "strtoul" || n == "strtoull" || n == "__isoc23_strtoul" || n == "__isoc23_strtoull" || n == "atoi" || n == "atol")
	{
		bool uns = n.find("strtou") != string::npos; bool at = n[0] == 'a'; auto x = cstr(a[0]); bool anySym = false; for (int q : x) anySym |= q < 0;
		int base = at ? 10 : a[2].isC() ? (int)a[2].c : throw Undec{"an unknown base"};
		auto done = [&](int64_t used, Val v, bool range)
		{
			if (range) { if (!S->errnoObj) { uint32_t o = newObj("errno", LC(4), false); wr(o).fill = 1; S->errnoObj = (int)o; } storeN(Val::ptr((uint32_t)S->errnoObj), 4, Val::num(34)); }
			if (!at && !(a[1].isC() && a[1].c == 0)) { Val e = a[0]; e.c += used; storeN(a[1], 8, e); }
			return ret(v);
		};
		if (!anySym)
		{
			string t = text(x); char *e; errno = 0; int64_t v; if (uns) v = (int64_t)strtoull(t.c_str(), &e, base); else v = strtoll(t.c_str(), &e, base); bool range = errno == ERANGE;
			if (at && n == "atoi") v = (int)v;
			if (uns && v < 0) { }
			return done(e - t.c_str(), Val::num(v), range);
		}
		for (int q : x) if (q >= 0) throw Undec{"a partly known number"};
		if (base != 10 || uns) throw Undec{"an unknown number in another format"};
		int64_t Ln = (int64_t)x.size(); auto mm = S->numMemo.find(x[0]); if (mm != S->numMemo.end()) return done(mm->second.used, mm->second.v, mm->second.c >= 4);
		int c = choose(6); auto memo = [&](int64_t u, const Val &v) { S->numMemo[x[0]] = State::NumText{c, u, v}; };
		if (c == 0) { S->notes.push_back("num none"); memo(0, Val::num(0)); return done(0, Val::num(0), false); }
		int64_t used = c == 2 || c == 1 ? 0 : Ln; // classes: 1 part (one character), 2 all, 3 part (all but one), 4 too large, 5 too small
		if (c == 2) used = Ln; if (c == 1) { if (Ln < 2) throw Prune(); used = 1; } if (c == 3) { if (Ln < 3) throw Prune(); used = Ln - 1; }
		if (c >= 4) { if (Ln < 19 || (c == 5 && Ln < 20)) throw Prune(); S->notes.push_back("num range"); memo(Ln, Val::num(c == 4 ? INT64_MAX : INT64_MIN)); return done(Ln, Val::num(c == 4 ? INT64_MAX : INT64_MIN), true); }
		I128 top = 1; for (int64_t i = 0; i < used && i < 19; ++i) top *= 10; int64_t hiV = top - 1 > (I128)INT64_MAX ? INT64_MAX : (int64_t)(top - 1); I128 b = used > 1 ? top / 10 - 1 : 0; if (used > 19) b = INT64_MAX; int64_t loV = -(int64_t)b;
		Val v; v.k = Val::Num; v.m = 1; v.sym = newSym(loV, hiV); S->notes.push_back((c == 2 ? "num all sym " : "num part sym ") + std::to_string(v.sym)); memo(used, v); return done(used, v, false);
	}
	if (n == "isdigit" || n == "isspace" || n == "tolower" || n == "toupper" || n == "isalpha" || n == "isalnum" || n == "isxdigit")
	{
		if (!a[0].isC()) throw Undec{n}; int c = (int)a[0].c; int r = n == "isdigit" ? isdigit(c) : n == "isspace" ? isspace(c) : n == "tolower" ? tolower(c) : n == "toupper" ? toupper(c) : n == "isalpha" ? isalpha(c) : n == "isalnum" ? isalnum(c) : isxdigit(c); return ret(Val::num(r));
	}
	if (n == "getenv") throw Undec{"the environment is consulted"};
	if (StringRef(n).starts_with("_ZNSt12__cow_string") || n == "_ZNSt15__exception_ptr13exception_ptrD1Ev") return ret(Val());
	return false;
}

static string esc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

int main(int argc, char **argv)
{
	if (argc < 4) { fprintf(stderr, "cliflow module scenarios main-file\n"); return 2; }
	LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[1], err, ctx); if (!M) { err.print("cliflow", errs()); return 2; }
	Ana A(*M); A.mainFile = argv[3];
	const Function *mainF = M->getFunction("main"); if (!mainF || mainF->isDeclaration()) { printf("{\"error\":\"no main\"}\n"); return 3; }
	std::ifstream sc(argv[2]); string line; long sid = 0;
	while (std::getline(sc, line))
	{
		// id TAB argc-lo TAB argc-hi TAB arg ...   arg: =text, ?length, !digits-length (unknown number text)
		vector<string> t; { std::stringstream ss(line); string x; while (std::getline(ss, x, '\t')) t.push_back(x); }
		if (t.size() < 3) continue; ++sid; A.seen.clear(); A.fix = A.bounded = 0; A.maxReads = 24; { const char *q = strstr(t[0].c_str(), "reads="); if (q) A.maxReads = (int)strtol(q + 6, nullptr, 10); }
		vector<State> stack; State s0; s0.objs.push_back(make_shared<Obj>()); s0.objs[0]->name = "null"; A.S = &s0; long paths = 0; long steps0 = A.totalSteps;
		auto report = [&](const string &kind, const string &msg, State &s)
		{
			++paths; A.S = &s; printf("{\"id\":\"%s\",\"end\":\"%s\",\"code\":%d,\"msg\":\"%s\",\"out\":\"%s\",\"err\":\"%s\",\"where\":\"%s\",\"at\":\"%s\",", esc(t[0]).c_str(), kind.c_str(), A.exitCode, esc(msg).c_str(), esc(s.out[1]).c_str(), esc(s.out[2]).c_str(), esc(s.where).c_str(), esc(s.exitWhere).c_str());
			printf("\"env\":["); for (size_t i = 0; i < s.env.size(); ++i) printf("%s\"%s\"", i ? "," : "", esc(s.env[i]).c_str());
			printf("],\"notes\":["); for (size_t i = 0; i < s.notes.size(); ++i) printf("%s\"%s\"", i ? "," : "", esc(s.notes[i]).c_str());
			printf("],\"files\":["); for (size_t i = 0; i < s.files.size(); ++i) { Lin p = A.norm(s.files[i].pos); printf("%s{\"name\":\"%s\",\"pos\":[%lld,%lld,%d],\"st\":%d,\"reads\":%d}", i ? "," : "", esc(s.files[i].name).c_str(), (long long)p.c, (long long)p.m, p.sym, s.files[i].st, s.files[i].reads); }
			printf("],\"args\":["); uint32_t k = 0; for (size_t i = 3; i < t.size(); ++i, ++k)
			{
				string v; bool open = false; if (t[i][0] == '=') v = t[i].substr(1); else { // bytes of the unknown string
					uint32_t o = 2 + k; try { auto x = A.cstr(Val::ptr(o)); for (int q : x) { if (q < 0) open = true; v += q < 0 ? '?' : (char)q; } } catch (...) { open = true; } }
				printf("%s{\"v\":\"%s\",\"open\":%d}", k ? "," : "", esc(v).c_str(), (int)open);
			}
			printf("],\"syms\":["); for (size_t i = 0; i < s.syms.size(); ++i) printf("%s[%lld,%lld]", i ? "," : "", (long long)s.syms[i].lo, (long long)s.syms[i].hi);
			// every digest that appears in the output
			printf("],\"digests\":["); bool first = true; for (size_t p = 0; (p = s.out[1].find("c0dec0de", p)) != string::npos; p += 8)
			{
				if (p + 32 > s.out[1].size()) break; unsigned id = (unsigned)strtoul(s.out[1].substr(p + 8, 8).c_str(), nullptr, 16); char b[40]; snprintf(b, sizeof b, "c0dec0de%08x%08x%08x", id, 0x1234567u ^ (unsigned)((int)(id + HB) * 2654435761u), 0x9abcdefu);
				if (s.out[1].substr(p, 32) != b || id >= hists.size()) continue; Hist &h = hists[id]; printf("%s{\"cls\":%d,\"len\":[%lld,%lld,%d],\"name\":\"%s\",\"custom\":\"%s\",\"fin\":%d,\"desc\":\"%s\",\"text\":\"%s\",\"seg\":[", first ? "" : ",", h.cls, (long long)h.length.c, (long long)h.length.m, h.length.sym, esc(h.name).c_str(), esc(h.custom).c_str(), (int)h.fin, esc(h.desc).c_str(), b); first = false;
				for (size_t i = 0; i < h.seg.size(); ++i) { Lin q = A.norm(h.seg[i].pos), l = A.norm(h.seg[i].len); printf("%s{\"k\":%d,\"lit\":\"%s\",\"pos\":[%lld,%lld,%d],\"len\":[%lld,%lld,%d],\"f\":%d}", i ? "," : "", h.seg[i].kind, esc(h.seg[i].lit.substr(0, 80)).c_str(), (long long)q.c, (long long)q.m, q.sym, (long long)l.c, (long long)l.m, l.sym, h.seg[i].file); }
				printf("]}");
			}
			printf("]}\n");
		};
		try
		{
			// argv: object 1 is the pointer array, objects 2.. the strings
			size_t na = t.size() - 3; int64_t room = std::max<int64_t>((int64_t)na, strtol(t[2].c_str(), nullptr, 10)); uint32_t av = A.newObj("argv", LC(8 * (room + 1)), false);
			for (size_t i = 0; i < na; ++i)
			{
				const string &x = t[3 + i]; int64_t L = x[0] == '=' ? (int64_t)x.size() - 1 : strtol(x.c_str() + 1, nullptr, 10); uint32_t o = A.newObj("argv[" + std::to_string(i) + "]", LC(L + 1), false);
				for (int64_t j = 0; j < L; ++j) { if (x[0] == '=') A.storeN(Val::ptr(o, j), 1, Val::num((int64_t)(signed char)x[1 + j])); else { Val v; v.k = Val::Num; v.m = 1; v.sym = A.newSym(1, 255); A.storeN(Val::ptr(o, j), 1, v); } }
				A.storeN(Val::ptr(o, L), 1, Val::num(0)); A.storeN(Val::ptr(av, 8 * (int64_t)i), 8, Val::ptr(o));
			}
			int64_t alo = strtol(t[1].c_str(), nullptr, 10), ahi = strtol(t[2].c_str(), nullptr, 10);
			Val ac = Val::num(alo); if (ahi > alo) { ac.sym = A.newSym(alo, ahi); ac.m = 1; ac.c = 0; }
			if (ahi == alo) A.storeN(Val::ptr(av, 8 * (int64_t)na), 8, Val::num(0));
			// constructors of static objects, in order
			vector<std::pair<int, const Function *>> ctors; if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &u : ca->operands()) { auto *cs = cast<ConstantStruct>(u); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
			std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
			for (auto &c : ctors) { A.enter(c.second, {}); A.ended = false; A.run(); A.ended = false; s0.fr.clear(); }
			s0.steps = 0; s0.exitWhere.clear(); A.enter(mainF, {ac, Val::ptr(av)});
			stack.push_back(s0);
		}
		catch (Undec &u) { report("undecided", "start-up: " + u.why, s0); continue; }
		catch (Bad &b) { report("bad", "start-up: " + b.what, s0); continue; }
		catch (Split &) { report("undecided", "start-up depends on the arguments", s0); continue; }
		catch (Fork &) { report("undecided", "start-up depends on the environment", s0); continue; }
		catch (Prune &) { continue; }
		long pruned = 0; size_t limit = 40000;
		while (!stack.empty())
		{
			State s = std::move(stack.back()); stack.pop_back(); A.S = &s; A.ended = false; A.exitCode = -1; s.used = 0;
			if ((size_t)paths > limit || A.totalSteps - steps0 > 60000000) { report("undecided", "too many paths", s); break; }
			try { A.run(); report(A.endKind == "return" || A.endKind == "exit" ? "exit" : A.endKind, "", s); }
			catch (Undec &u) { s.exitWhere = A.here(); A.exitCode = -1; string w = s.fr.empty() ? "" : A.loc(&*s.fr.back().it); report("undecided", u.why + " at " + w, s); }
			catch (Bad &b) { s.exitWhere = A.here(); A.exitCode = -1; report("bad", b.what, s); }
			catch (Prune &) { ++pruned; }
			catch (Split &p)
			{
				State s2 = s; s.syms[p.sym].hi = p.at - 1; s2.syms[p.sym].lo = p.at; if (s.syms[p.sym].lo <= s.syms[p.sym].hi) stack.push_back(std::move(s)); if (s2.syms[p.sym].lo <= s2.syms[p.sym].hi) stack.push_back(std::move(s2));
			}
			catch (Fork &f) { for (int i = 0; i < f.n; ++i) { State s2 = s; s2.choices.push_back(i); stack.push_back(std::move(s2)); } }
		}
		printf("{\"id\":\"%s\",\"end\":\"summary\",\"paths\":%ld,\"fixpoints\":%ld,\"bounded\":%ld,\"steps\":%ld}\n", esc(t[0]).c_str(), paths, A.fix, A.bounded, A.totalSteps - steps0); fflush(stdout);
	}
	printf("{\"end\":\"total\",\"functions\":%zu,\"lines\":%zu,\"steps\":%ld,\"fns\":[", A.visited.size(), A.covLines.size(), A.totalSteps);
	bool first = true; for (auto *f : A.visited) if (auto *sp = f->getSubprogram()) if (sp->getFilename().ends_with(A.mainFile)) { printf("%s\"%s:%u\"", first ? "" : ",", esc(sp->getName().str()).c_str(), sp->getLine()); first = false; }
	printf("]}\n");
	return 0;
}
