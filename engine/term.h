// Hash-consed value numbers ("terms") with canonicalising constructors, plus affine facts.
#pragma once
#include <set>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t { Const, Atom, Lin, Mul, UDiv, URem, SDiv, SRem, And, Xor, Cat, Shl, Shr, Sar, ICmp, Ite, Tab, Sel, FpConst, FpOp };
enum class AK : uint8_t { None, Var, Addr, Msg, Chain, Junk, Undef, Ext };
enum class Pred : uint8_t { EQ, NE, ULT, ULE, UGT, UGE, SLT, SLE, SGT, SGE };

struct Node;
typedef const Node *N;

struct Piece { N n; uint16_t lo; uint16_t len; u128 c; };   // n==nullptr: constant c

struct Node
{
	Op op; AK ak = AK::None; Pred pred = Pred::EQ;
	uint16_t w = 0;
	uint32_t id = 0;
	uint64_t hash = 0;
	u128 k = 0;                 // Const: value; Lin/Xor/And: constant; Atom: index
	std::vector<N> a;           // operands
	std::vector<u128> co;       // Lin coefficients
	std::vector<Piece> ps;      // Cat pieces, low bits first
	const std::vector<uint64_t> *tab = nullptr;  // Tab contents (interned)
	double flo = 0, fhi = 0;    // FpConst interval
	// derived flags
	bool aff = false;           // built only from Var/Addr atoms as an affine form
	bool var = false;           // depends only on Var/Addr atoms (no data)
	bool lin = false;           // xor of slices of atoms in canonical run form
	uint32_t lt = 0;            // number of slices in that form
	bool undef = false;         // contains an Undef atom
	bool junk = false;
	N sup = nullptr;            // unique byte-sized leaf this depends on, if any
	mutable const std::vector<uint64_t> *supTab = nullptr;
	mutable std::vector<uint64_t> lanes;
	mutable uint32_t laneGen = 0;
};

struct Range { i128 lo, hi; };
struct Aff { std::vector<std::pair<N, i128>> t; i128 c = 0; };

struct Facts
{
	std::map<uint32_t, Range> range;     // by var node id
	std::vector<Aff> ge0;                // extra constraints  expr >= 0
	std::map<uint32_t, N> sub;           // partition variables expressed by others (residue classes)
	uint64_t sig = 0;
	void resig();
};
extern Facts *F;      // current facts

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

N mkConst(unsigned w, u128 v);
N mkAtom(AK ak, unsigned w, u128 idx, N pos = nullptr);
N mkVar(const std::string &name);      // 64-bit partition variable
const std::string &varName(N n);
N mkAddr(unsigned w, uint32_t obj);
N freshJunk(unsigned w);
N mkUndef(unsigned w);
extern std::vector<N> chainIv;           // initial values of the named chaining words
extern int undefMode;                   // how random valuations choose unset values: 0, 1 arbitrary, 2 zero, 3 ones

N add(N a, N b);
N sub(N a, N b);
N mul(N a, N b);
N mulc(N a, u128 c);
N neg(N a);
N udivN(N a, N b);
N uremN(N a, N b);
N sdivN(N a, N b);
N sremN(N a, N b);
N andN(N a, N b);
N orN(N a, N b);
N xorN(N a, N b);
N notN(N a);
N shlN(N a, N s);
N lshrN(N a, N s);
N ashrN(N a, N s);
N slice(N a, unsigned lo, unsigned len);
N cat(std::vector<Piece> ps);
N catNodes(const std::vector<N> &lowFirst);
N zext(N a, unsigned w);
N sext(N a, unsigned w);
N trunc(N a, unsigned w);
N icmp(Pred p, N a, N b);
N ite(N c, N a, N b);
N mkTab(unsigned w, N leaf, const std::vector<uint64_t> &vals);
const std::vector<uint64_t> *tabIntern(const std::vector<uint64_t> &v);
N mkTabI(unsigned w, N idx, const std::vector<uint64_t> *tp);
N mkSel(unsigned w, N idx, const std::vector<N> &vals);
N mkFp(double lo, double hi);

inline bool isConst(N n) { return n->op == Op::Const; }
inline bool isConst(N n, u128 v) { return n->op == Op::Const && n->k == v; }
bool toAff(N n, Aff &out);                 // exact integer reading (unsigned), false when it cannot be established
bool toAffRaw(N n, Aff &out);              // signed-normalised coefficients, modulo 2^w
N fromAff(const Aff &a, unsigned w);
i128 loBound(const Aff &a, int depth = 3);
i128 hiBound(const Aff &a, int depth = 3);
Aff affAdd(const Aff &a, const Aff &b, i128 s);
N affPlus(N a, i128 c);
u128 maxVal(N n);                          // conservative unsigned maximum

// substitution of atoms
struct Subst
{
	std::unordered_map<N, N> memo;
	std::function<N(N)> atom;              // maps an atom to its replacement (or itself)
	N operator()(N n);
};

std::string show(N n, int depth = 4);
static const unsigned LANES = 16;
std::vector<uint64_t> laneVec(N n, unsigned chunk, uint64_t seed);     // values of n under LANES random valuations
bool lanesDiffer(N a, N b, unsigned chunks, uint64_t seed, bool *decided = nullptr);
uint32_t validLanes(unsigned chunk, uint64_t seed);                   // valuations that satisfy the current facts
bool hasDataCmp(N n);
// is there a valuation that meets all goals (1-bit nodes with the value they must have) and under which a and b differ?
bool directed(const std::vector<std::pair<N, bool>> &goals, N a, N b, uint64_t seed, unsigned rounds = 8);
extern std::set<uint64_t> inputAddr;           // objects whose address the caller chooses
bool mentionsAddr(N n);
size_t nodeCount();
i128 floordiv(i128 a, i128 b);
// condition over partition variables rewritten as  expr >= 0  (or expr == 0 / != 0)
struct VarCond { bool ok = false; bool eq = false; bool neg = false; Aff e; };
VarCond varCond(N c);
VarCond varCondRaw(N c, Aff side[2], i128 &lo, i128 &hi);
