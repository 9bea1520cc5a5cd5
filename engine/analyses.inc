static void collectEvents(Drv &d, const string &prop, const char *ctx)
{
	for (auto &e : d.I.events) if (e.sure) d.rep.add(prop, e.kind, e.msg + string(" [") + ctx + "]", e.where); else if (d.rep.incomplete.size() < 60) d.rep.incomplete.push_back("cannot exclude: " + e.kind + ": " + e.msg + " @ " + e.where);
	d.I.events.clear();
}

static string lastEvent(Drv &d)
{
	for (auto &e : d.I.events) if (e.sure && (e.kind == "null" || e.kind == "abort" || e.kind == "throw" || e.kind == "assert")) return " (" + e.kind + ": " + e.msg + " @ " + e.where + ")";
	return "";
}

// Every function reachable from the interface: direct writes to shared objects, and external functions whose result depends on more than their arguments.
static void scanShared(const llvm::Module &M, Report &rep)
{
	using namespace llvm;
	std::set<const Function *> seen; vector<const Function *> wl;
	for (auto &f : M) if (!f.isDeclaration() && f.getName().starts_with("h_")) { seen.insert(&f); wl.push_back(&f); }
	static const std::regex bad("^(std::)?(time|clock|clock_gettime|gettimeofday|rand|srand|rand_r|random|drand48|arc4random|getrandom|getentropy|getenv|secure_getenv|setlocale|localeconv|nl_langinfo|getpid|gettid|pthread_self|syscall|fopen|open|read|std::random_device.*|std::chrono::.*now.*|localtime|gmtime|strtok)(\\(.*)?$|std::random_device|_clock::now\\(|std::locale::(global|classic)|std::this_thread");
	unsigned stores = 0; std::set<string> ext;
	auto shared = [&](const Value *p) -> const GlobalVariable * {
		auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(p, 0));
		if (!g || g->isConstant() || g->isThreadLocal() || g->getName().starts_with("_ZGV")) return nullptr;
		if (M.getNamedValue(("_ZGV" + g->getName().drop_front(std::min<size_t>(2, g->getName().size()))).str())) return nullptr;   // guarded initialisation: decided by the interpretation
		return g;
	};
	while (!wl.empty())
	{
		const Function *f = wl.back(); wl.pop_back();
		for (auto &b : *f) for (auto &i : b)
		{
			const Value *p = nullptr;
			if (auto *s = dyn_cast<StoreInst>(&i)) p = s->getPointerOperand();
			else if (auto *s = dyn_cast<AtomicRMWInst>(&i)) p = s->getPointerOperand();
			else if (auto *s = dyn_cast<AtomicCmpXchgInst>(&i)) p = s->getPointerOperand();
			else if (auto *s = dyn_cast<MemIntrinsic>(&i)) p = s->getDest();
			if (p)
			{
				++stores;
				if (auto *g = shared(p))
				{
					const DebugLoc &dl = i.getDebugLoc();
					rep.add("T01", "shared", demangle(f->getName().str()) + " writes to " + demangle(g->getName().str()) + ", which every hasher shares", dl ? dl->getFilename().str() + ":" + std::to_string(dl.getLine()) : string());
				}
			}
			if (auto *c = dyn_cast<CallBase>(&i))
			{
				auto *t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
				if (!t) { if (!c->isInlineAsm()) continue; rep.incomplete.push_back("inline assembly in " + demangle(f->getName().str())); continue; }
				if (t->isDeclaration())
				{
					string n = demangle(t->getName().str());
					if (ext.insert(n).second && (std::regex_search(n, bad) || n.find("readcyclecounter") != string::npos || n.find("rdrand") != string::npos || n.find("rdtsc") != string::npos))
						rep.add("T01", "environment", demangle(f->getName().str()) + " calls " + n + ", whose result depends on the environment");
				}
				else if (seen.insert(t).second) wl.push_back(t);
			}
			for (const Use &u : i.operands()) if (auto *t = dyn_cast<Function>(u->stripPointerCasts())) if (!t->isDeclaration() && seen.insert(t).second) wl.push_back(t);
		}
	}
	for (auto &g : M.globals())
		if (!g.isConstant() && !g.isDeclaration() && !g.getName().starts_with("llvm.") && !g.getName().starts_with("_ZGV") && !g.getName().starts_with("_ZStL")) rep.notes.push_back("modifiable static object " + demangle(g.getName().str()));
	rep.count["functions_scanned"] = seen.size(); rep.count["stores_scanned"] = stores; rep.count["external_functions"] = ext.size();
}
void runAnalyses(const llvm::Module &M, const Config &cfg, Report &rep)
{
	Drv d(M, cfg, rep);
	d.I.budget = 4000000000ull;
	if (cfg.has("limit")) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); d.I.deadline = ts.tv_sec + cfg.num("limit"); }
	bool verbose = cfg.has("v");
	auto mark = [&](const char *s) { if (verbose) std::cerr << s << " at " << Drv::now() - d.t0 << " s, nodes " << nodeCount() << ", steps " << d.I.steps << ", memo hits " << d.I.memoHits << "\n"; };
	auto finish = [&] {
		if (verbose) { d.I.profile(); for (auto &e : d.I.events) std::cerr << "event " << e.kind << " " << e.msg << " @ " << e.where << "\n"; }
		for (auto &x : d.I.functionsAnalysed) rep.functions.insert(x);
		rep.count["interpreted_operations"] = d.I.steps;
	};
	auto general = [&] {
		d.infer(); mark("layout");
		if (verbose) for (auto &w : d.words) std::cerr << " word obj" << w.obj << "+" << w.off << " x" << w.bytes << "\n";
		d.learnStep(); mark("step");
		d.checkStepBase(); mark("base");
		d.families(); mark("families");
	};
	try
	{
		if (cfg.has("H"))
		{
			string why;
			Spec s(d, cfg.str("H"));
			try { general(); d.finals(true); mark("finals"); s.run(); mark("spec"); }
			catch (Incomplete &e) { why = e.what; }
			catch (Split &e) { why = "undecided condition at " + e.where; }
			catch (SplitMod &e) { why = "undecided condition at " + e.where; }
			if (!why.empty()) { rep.findings.clear(); s.bounded(why); mark("bounded"); }
		}
		if (cfg.has("I01"))
		{
			string why;
			try { general(); d.closure(); mark("closure"); d.finals(false); mark("finals"); d.reportSplit(); }
			catch (Incomplete &e) { why = e.what; }
			catch (Split &e) { why = "undecided condition at " + e.where; }
			catch (SplitMod &e) { why = "undecided condition at " + e.where; }
			if (!why.empty() && rep.findings.empty()) { d.boundedSplit(why); mark("bounded"); }
		}
		if (cfg.has("R01") || cfg.has("S01") || cfg.has("O01") || cfg.has("A01") || cfg.has("Q01") || cfg.has("T01"))
		{
			Behave b(d);
			if (cfg.has("tuple")) b.conc = true;
			else
			{
				string why;
				try { general(); }
				catch (Incomplete &e) { why = e.what; }
				catch (Split &e) { why = "undecided condition at " + e.where; }
				catch (SplitMod &e) { why = "undecided condition at " + e.where; }
				if (!why.empty()) { rep.notes.push_back("messages of every length are not covered (" + why + "); bounded histories analysed instead"); d.I.chain.on = false; b.conc = true; }
			}
			auto run = [&](const char *p, auto fn) {
				if (!cfg.has(p)) return;
				struct CP { const Config &c; const char *p; } cp{cfg, p}; (void)cp;
				auto before = d.I.events;
				struct EV { Drv &d; decltype(before) &b; const char *p; ~EV() {
					// a released, moved-from or empty object used by a valid sequence of value operations
					if (string(p) == "S01") for (auto &e : d.I.events) if (e.sure && !b.count(e) && (e.kind == "null" || e.kind == "lifetime" || e.kind == "free" || e.kind == "uninit")) d.rep.add(p, e.kind, e.msg, e.where);
				} } ev{d, before, p};
				try { fn(); }
				catch (DeadCall &e) { rep.add(p, "abort", "a valid call sequence cannot return: " + e.what + lastEvent(d)); }
				catch (Incomplete &e) { rep.incomplete.push_back(string(p) + ": " + e.what); }
				catch (Split &e) { rep.incomplete.push_back(string(p) + ": undecided condition at " + e.where); }
				catch (SplitMod &e) { rep.incomplete.push_back(string(p) + ": undecided condition at " + e.where); }
				mark(p);
			};
			run("R01", [&] { b.reset(); });
			run("S01", [&] { b.copies(); });
			run("O01", [&] { b.outputs(); });
			run("A01", [&] { b.overloads(); });
			run("Q01", [&] { b.equality(); });
			run("T01", [&] { b.effects(); b.interference(); });
		}
		if (cfg.has("shapes")) { Tuple t(d); t.shapes(cfg.str("main"), cfg.num("shapes")); mark("shapes"); }
		if (cfg.has("recorded"))
		{
			Tuple t(d);
			std::stringstream ss(cfg.str("elems")); string e;
			while (std::getline(ss, e, ',')) { std::stringstream es(e); string f, sz, c, p; std::getline(es, f, ':'); std::getline(es, sz, ':'); std::getline(es, c, ':'); std::getline(es, p, ':'); t.elems.push_back({f, std::stol(sz), std::stol(c), p}); }
			t.recorded(cfg.str("main")); mark("recorded");
		}
		if (verbose) for (auto &x : d.demoted) for (auto &y : x.second) std::cerr << "  demoted k=" << x.first.first << " z=" << x.first.second << " +" << y.first.second << ": " << y.second << "\n";
	}
	catch (DeadCall &e) { rep.add(cfg.str("main", "M01"), "abort", "call of " + e.what + " cannot return"); }
	catch (Split &s) { rep.incomplete.push_back("undecided condition at " + s.where); }
	catch (SplitMod &s) { rep.incomplete.push_back("undecided condition at " + s.where); }
	catch (Incomplete &e) { rep.incomplete.push_back(e.what); }
	finish();
	if (cfg.has("T01"))
	{
		for (auto &w : d.I.sharedWrites) rep.add("T01", "shared", "operations of a hasher write to " + w.first + ", which every hasher shares", w.second);
		scanShared(d.I.M, rep);
	}
	if (cfg.has("M01")) collectEvents(d, "M01", "core");
}
