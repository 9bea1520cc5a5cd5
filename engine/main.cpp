// Driver: runs the requested analyses of one hasher instance and writes a JSON report.
#include "driver.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/IPO/ModuleInliner.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Analysis/InlineCost.h>
#include <fstream>
#include <iostream>
#include <pthread.h>
#include <sstream>
#include <map>
#include <set>

using namespace llvm;
using std::string; using std::vector;

static int inlineThreshold = getenv("HASHAN_INLINE") ? atoi(getenv("HASHAN_INLINE")) : 100;
// switches over a merged control value (cleanup destinations) become chains of equality tests
static void chainSwitches(Module &M)
{
	for (Function &F : M)
	{
		vector<SwitchInst *> sw;
		for (BasicBlock &b : F) if (auto *s = dyn_cast<SwitchInst>(b.getTerminator())) if (isa<PHINode>(s->getCondition())) sw.push_back(s);
		for (SwitchInst *s : sw)
		{
			BasicBlock *bb = s->getParent(), *dflt = s->getDefaultDest(); Value *c = s->getCondition();
			if (isa<UnreachableInst>(dflt->getFirstNonPHIOrDbg()) && s->getNumCases() > 0) dflt = nullptr;
			vector<std::pair<ConstantInt *, BasicBlock *>> cs;
			std::map<BasicBlock *, std::map<PHINode *, Value *>> in;
			for (auto k : s->cases()) cs.push_back({k.getCaseValue(), k.getCaseSuccessor()});
			std::set<BasicBlock *> succ; for (unsigned i = 0; i < s->getNumSuccessors(); ++i) succ.insert(s->getSuccessor(i));
			for (auto *x : succ) for (PHINode &p : x->phis()) { in[x][&p] = p.getIncomingValueForBlock(bb); while (p.getBasicBlockIndex(bb) >= 0) p.removeIncomingValue(bb, false); }
			auto link = [&](BasicBlock *from, BasicBlock *to) { for (auto &x : in[to]) x.first->addIncoming(x.second, from); };
			DebugLoc dl = s->getDebugLoc();
			s->eraseFromParent();
			BasicBlock *at = bb;
			for (size_t i = 0; i < cs.size(); ++i)
			{
				IRBuilder<> B(at); B.SetCurrentDebugLocation(dl);
				bool last = i + 1 == cs.size();
				if (last && !dflt) { B.CreateBr(cs[i].second); link(at, cs[i].second); at = nullptr; break; }
				BasicBlock *nx = last ? dflt : BasicBlock::Create(M.getContext(), "sw", &F);
				Value *e = B.CreateICmpEQ(c, cs[i].first);
				B.CreateCondBr(e, cs[i].second, nx);
				link(at, cs[i].second); if (last) { link(at, nx); at = nullptr; } else at = nx;
			}
			if (at) { IRBuilder<> B(at); B.SetCurrentDebugLocation(dl); if (dflt) { B.CreateBr(dflt); link(at, dflt); } else B.CreateUnreachable(); }
		}
	}
}

static void runPasses(Module &M)
{
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
	InlineParams ip = getInlineParams(inlineThreshold);
	ip.DefaultThreshold = inlineThreshold; ip.HintThreshold = inlineThreshold; ip.ColdThreshold = inlineThreshold;
	if (inlineThreshold > 0) MPM.addPass(ModuleInlinerPass(ip));
	MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
	MPM.run(M, MAM);
	chainSwitches(M);
	if (verifyModule(M, &errs())) { std::cerr << "invalid module after preparation\n"; exit(2); }
}

static int realMain(int argc, char **argv)
{
	if (argc < 3) { std::cerr << "usage: hashan module.bc out.json key=value...\n"; return 2; }
	LLVMContext C; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, C);
	if (!M) { err.print(argv[1], errs()); return 2; }
	runPasses(*M);
	Config cfg;
	for (int i = 3; i < argc; ++i) { string s = argv[i]; auto k = s.find('='); cfg.kv[s.substr(0, k)] = k == string::npos ? "1" : s.substr(k + 1); }
	Report rep;
	try { runAnalyses(*M, cfg, rep); }
	catch (Incomplete &e) { rep.incomplete.push_back(e.what); }
	std::ofstream o(argv[2]); o << rep.json(); o.close();
	return o ? 0 : 2;
}

struct Args { int c; char **v; int r; };
static void *thr(void *p)
{
	Args *a = (Args *)p;
	try { a->r = realMain(a->c, a->v); }
	catch (Split &e) { std::cerr << "uncaught split at " << e.where << "\n"; a->r = 2; }
	catch (NeedLoop &e) { std::cerr << "uncaught loop " << e.fn << "\n"; a->r = 2; }
	catch (std::exception &e) { std::cerr << "error: " << e.what() << "\n"; a->r = 2; }
	return nullptr;
}
int main(int argc, char **argv)
{
	Args a{argc, argv, 2};
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30);
	pthread_t t;
	if (pthread_create(&t, &at, thr, &a)) { std::cerr << "cannot create analysis thread\n"; return 2; }
	pthread_join(t, nullptr);
	return a.r;
}
