// Abstract interpreter for LLVM IR over the value-number domain.
#pragma once
#include "term.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <set>

struct Val { N n = nullptr; std::shared_ptr<std::vector<Val>> agg; };
inline bool operator==(const Val &a, const Val &b)
{
	if (a.n != b.n) return false;
	if (a.agg == b.agg) return true;
	if (!a.agg || !b.agg) return false;
	return *a.agg == *b.agg;
}

struct Cell { N n = nullptr; uint16_t sig = 0; };    // n==nullptr: uninitialised
inline bool operator==(const Cell &a, const Cell &b) { return a.n == b.n && a.sig == b.sig; }
inline bool operator!=(const Cell &a, const Cell &b) { return !(a == b); }

enum class OK : uint8_t { Stack, Heap, Global, Ext, Self };
struct Obj
{
	OK kind = OK::Stack; bool alive = true, ro = false;
	uint64_t size = 0; unsigned align = 16; uint64_t ver = 0;
	std::string name;
	uint32_t msg = 0; N lo = nullptr, hi = nullptr;   // Ext: absolute bounds of the readable window
	N base = nullptr;                                  // Ext: message position (64 bits) of offset 0, if not 0
	std::vector<Cell> cells;
};

struct Mem
{
	std::vector<std::shared_ptr<Obj>> objs;
	const Obj &get(uint32_t id) const { return *objs[id]; }
	Obj &mut(uint32_t id);
	uint32_t alloc(OK k, uint64_t size, const std::string &name);
};

struct Split { Aff cond; bool eq; std::string where; };         // needs cond>=0 decided
struct SplitMod { N var; unsigned bits; std::string where; };   // needs the residue of a partition variable
struct NeedLoop { std::string fn; int header; };
struct Incomplete { std::string what; };

struct Event { std::string kind, msg, where; bool sure = true; };   // sure: some valuation reaches it
inline bool operator<(const Event &a, const Event &b) { return std::tie(a.kind, a.msg, a.where, a.sure) < std::tie(b.kind, b.msg, b.where, b.sure); }

struct PFunc;
struct Frame;
struct ChainInfo
{
	bool on = false;
	N pVar = nullptr;                // the variable the step terms are written in
	std::vector<N> step;             // term of chain word i after one step from H_i(p)
	std::vector<unsigned> width;
	unsigned maxE = 4;
	std::unordered_map<N, N> fold;   // step term -> H_i(P+e)
	std::set<N> registered;
	void reset() { on = false; step.clear(); width.clear(); fold.clear(); registered.clear(); }
};

struct Rec;
struct Interp
{
	const llvm::Module &M; const llvm::DataLayout &DL;
	unsigned pw;           // pointer width in bits
	bool big;              // big endian
	Mem base;              // globals
	std::map<const llvm::Value *, uint32_t> globalId;
	std::map<const llvm::Function *, std::unique_ptr<PFunc>> pf;
	std::set<std::pair<std::string, int>> genLoops;
	std::set<Event> events;
	bool quiet = false;                 // suppress events
	ChainInfo chain;
	uint64_t steps = 0, calls = 0, memoHits = 0, budget = 0;
	long deadline = 0; unsigned tick = 0;
	std::vector<Frame *> stack;
	std::vector<Rec *> recs;
	bool memoOn = true;
	std::set<std::string> callsSeen, externSeen, functionsAnalysed;
	struct RecEntry { std::string kind; N ptr = nullptr, len = nullptr; bool input = false; std::vector<N> bytes, bytes2, args; };
	std::vector<RecEntry> recLog;       // calls of rec_* functions, in order
	std::map<std::pair<PFunc *, int>, int> forkNest;
	bool trackWrites = false; std::set<uint32_t> writtenObjs;   // effect analysis
	std::set<std::string> globalReadsMutable;
	std::set<uint32_t> tls; int initDepth = 0; std::map<std::string, std::string> sharedWrites;   // static objects written outside their guarded initialisation
	void wrote(const Mem &m, uint32_t id);
	bool init(Mem &m, std::vector<std::string> &problems);   // dynamic initialisation of namespace-scope objects

	Interp(const llvm::Module &m);
	~Interp();
	Val call(const std::string &fn, std::vector<Val> args, Mem &mem, bool *dead = nullptr);
	bool has(const std::string &fn) const { auto *f = M.getFunction(fn); return f && !f->isDeclaration(); }

	N load(Mem &m, N ptr, unsigned bytes, unsigned align);
	void store(Mem &m, N ptr, N v, unsigned align);
	N loadObj(Mem &m, uint32_t id, uint64_t off, unsigned bytes);
	N cellsToNode(const std::vector<Cell> &c);
	bool resolve(N ptr, uint32_t &obj, N &off);
	void event(const std::string &kind, const std::string &msg, N viol = nullptr, bool sure = true);
	bool reachable(N viol);
	bool readsUnset(N v);               // some valuation reaching here makes v depend on an unset value                         // some sampled valuation satisfies the path condition and viol
	std::vector<std::pair<N, bool>> path;           // data conditions of the enclosing forked branches
	N outside(const Obj &o, N off, uint64_t len);   // condition: access leaves the readable window
	std::string where() const;
	N ptrTo(uint32_t obj, N off = nullptr);
	void registerChain(N P);
	N foldNode(N n);

	void profile();
	// internals
	PFunc &prep(const llvm::Function *f);
	Val runFunc(PFunc &f, std::vector<Val> &args, Mem &mem, bool &dead);
	Val callFunc(const llvm::Function *f, std::vector<Val> &args, Mem &mem, bool &dead);
	bool intrinsic(const llvm::Function *f, std::vector<Val> &args, Mem &mem, Val &out, bool &dead);
	void memcopy(Mem &m, N dst, N src, N len, bool mayOverlap);
	void memfill(Mem &m, N dst, N v, N len);
	bool checkExt(const Obj &o, uint32_t id, N off, uint64_t len);
	void noteRead(const Obj &o, uint32_t id, uint64_t off, unsigned n);
	void noteWrite(uint32_t id, uint64_t off, unsigned n);
	Cell makeCell(N v, unsigned byteIndex, unsigned total) const;
	Val constVal(const llvm::Constant *c);
	void initGlobal(const llvm::Constant *c, Obj &o, uint64_t off);
	N tableLoad(Mem &m, uint32_t id, N off, unsigned bytes, bool &ok);
};
