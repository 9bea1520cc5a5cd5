// Comparison with the reference definition (spec/*.h), compiled into the same module as s_* functions.
struct Spec
{
	Drv &d; uint32_t so; Mem base; Mem Y0; vector<Mem> Y; vector<Word> sw; bool lazy; long B; uint64_t seed; unsigned rounds = 2; string prop;
	std::map<pair<size_t, unsigned>, pair<size_t, unsigned>> map;   // impl (word, byte) -> spec (word, byte)
	bool mapped = true, injective = true; std::set<size_t> live;
	std::map<pair<size_t, unsigned>, pair<size_t, unsigned>> inv;
	Spec(Drv &x, const string &pr) : d(x), prop(pr)
	{
		lazy = d.cfg.num("lazy"); B = d.B; seed = d.seed * 7919 + 13;
		base = d.zero; so = base.alloc(OK::Self, d.constFn("s_size"), "reference state");
		base.mut(so).align = 16;
	}
	struct Off2 { ChainInfo &c; bool o; Off2(ChainInfo &x) : c(x), o(x.on) { c.on = false; } ~Off2() { c.on = o; } };
	void block(Mem &m, N idx)
	{
		N at = d.window(m, d.bpos(idx, 0), d.c64(B));
		d.callv("s_block", {d.V(d.I.ptrTo(so)), d.V(at), d.V(idx)}, m);
	}
	Bytes final(Mem m, N nblocks, long k)
	{
		N at = d.window(m, d.bpos(nblocks, 0), d.c64(k));
		for (auto &c : m.mut(d.out).cells) c = Cell();
		d.callv("s_final", {d.V(d.I.ptrTo(so)), d.V(at), d.V(nblocks), d.V(d.c64(k)), d.V(d.I.ptrTo(d.out))}, m);
		Bytes b; long D = d.cfg.num("D");
		for (long i = 0; i < D; ++i) { const Cell &c = m.get(d.out).cells[i]; if (!c.n) throw Incomplete{"reference leaves digest bytes unset"}; b.push_back(slice(c.n, c.sig * 8, 8)); }
		return b;
	}
	Bytes finalAt(const Mem &m, N P, long k) { if (lazy && k == 0 && !isConst(P, 0)) return final(m, affPlus(P, -1), B); return final(m, P, k); }
	N chainPos(N P, long k) { return lazy && k == 0 && !isConst(P, 0) ? affPlus(P, -1) : P; }
	void init()
	{
		struct Off { ChainInfo &c; bool o; Off(ChainInfo &x) : c(x), o(x.on) { c.on = false; } ~Off() { c.on = o; } } off(d.I.chain);
		d.parts(d.mk(0, 0), [&] {
			Y.clear(); sw.clear();
			Mem m = base; d.callv("s_init", {d.V(d.I.ptrTo(so)), d.V(d.I.ptrTo(d.key))}, m); Y0 = m; Y.push_back(m);
			for (int i = 0; i < 3; ++i) { block(m, d.c64(i)); Y.push_back(m); }
			std::map<pair<uint32_t, uint64_t>, CK> kind;
			for (size_t i = 0; i < m.get(so).cells.size(); ++i)
			{
				auto &a = Y[2].get(so).cells[i], &b = Y[3].get(so).cells[i];
				kind[{so, i}] = a.n && b.n && !(a == b) ? CK::Chain : CK::Const;
			}
			d.group(kind, Y[2], Y[3], Y0, so, sw);
		});
		// match chaining bytes by random interpretation of their value after 0..3 blocks
		auto print = [&](const Mem &m, const Word &w, unsigned j) { const Cell &c = m.get(w.obj).cells[w.off + j]; if (!c.n) return vector<uint64_t>(); return laneVec(slice(c.n, c.sig * 8, 8), 0, seed); };
		Facts f = d.mk(0, 0); Facts *old = F; F = &f;
		std::map<vector<vector<uint64_t>>, pair<size_t, unsigned>> byPrint; 
		for (size_t i = 0; i < sw.size(); ++i) for (unsigned j = 0; j < sw[i].bytes; ++j) { vector<vector<uint64_t>> v; for (auto &m : Y) v.push_back(print(m, sw[i], j)); byPrint.emplace(v, std::make_pair(i, sigOf(sw[i], j))); }
		live = d.liveWords();
		for (size_t i = 0; i < d.words.size(); ++i) for (unsigned j = 0; live.count(i) && j < d.words[i].bytes; ++j)
		{
			vector<vector<uint64_t>> v; v.push_back(print(d.S0, d.words[i], j)); for (int t = 1; t <= 3; ++t) v.push_back(print(d.X[t], d.words[i], j));
			auto it = byPrint.find(v);
			if (it == byPrint.end()) { mapped = false; d.rep.notes.push_back("chaining byte at offset " + std::to_string(d.words[i].off + j) + " has no counterpart in the reference state"); if (d.cfg.has("v")) std::cerr << "unmapped " << i << "." << j << "\n"; continue; }
			map[{i, sigOf(d.words[i], j)}] = it->second;
		}
		// (an initial value that selects on key bytes is not settled by sampled valuations)
		for (auto &e : map)
		{
			auto &w = d.words[e.first.first]; unsigned s = e.first.second;
			const Cell &c = d.S0.get(w.obj).cells[w.off + sigOf(w, s)]; const Word &v = sw[e.second.first]; const Cell &r = Y0.get(v.obj).cells[v.off + sigOf(v, e.second.second)];
			if (!c.n || !r.n) continue;
			N x = slice(c.n, c.sig * 8, 8), y = slice(r.n, r.sig * 8, 8);
			if (x == y || !(hasDataCmp(x) || hasDataCmp(y))) continue;
			if (d.compare(x, y) == Differ) { d.rep.add(prop, "value", "initial value, state word " + std::to_string(e.first.first) + ": byte " + std::to_string(s) + " is " + show(x, 3) + " but the definition gives " + show(y, 3)); break; }
			d.rep.incomplete.push_back("initial value, state word " + std::to_string(e.first.first) + ": agrees on sampled valuations but contains data-dependent selection"); break;
		}
		F = old;
		for (auto &e : map) if (!inv.emplace(e.second, e.first).second) injective = false;
		d.rep.count["chain_bytes_matched"] = map.size();
	}
	unsigned sigOf(const Word &w, unsigned j) { return d.I.big ? w.bytes - 1 - j : j; }
	// Value of reference chaining word i at block position pos, written in the implementation's chaining atoms where
	// the correspondence is one-to-one (then nothing needs translating), else as an atom of its own.
	N specAtom(size_t i, N pos)
	{
		if (!injective) return mkAtom(AK::Chain, sw[i].bytes * 8, 1000 + i, pos);
		vector<N> by; N own = nullptr;
		for (unsigned s = 0; s < sw[i].bytes; ++s)
		{
			auto it = inv.find({i, s});
			if (it != inv.end()) { const Word &w = d.words[it->second.first]; by.push_back(slice(mkAtom(AK::Chain, w.bytes * 8, it->second.first, pos), 8 * it->second.second, 8)); continue; }
			if (!own) own = mkAtom(AK::Chain, sw[i].bytes * 8, 1000 + i, pos);
			by.push_back(slice(own, 8 * s, 8));
		}
		return catNodes(by);
	}
	bool undecidedAddr = false;
	Subst S;
	void newTranslation() { S.memo.clear(); }
	N translate(N n)
	{
		if (injective) return n;
		if (!S.atom) S.atom = [&](N a) -> N {
			if (a->ak == AK::Msg) return a;
			if (a->ak != AK::Chain || a->k >= 1000) return a;
			vector<N> by;
			for (unsigned s = 0; s < a->w / 8; ++s)
			{
				auto it = map.find({(size_t)a->k, s});
				by.push_back(it == map.end() ? slice(a, 8 * s, 8) : slice(specAtom(it->second.first, a->a[0]), 8 * it->second.second, 8));
			}
			return catNodes(by);
		};
		return S(n);
	}
	Cmp compare(N a, N b) { return d.compare(a, b, rounds, seed); }
	// development aid: smallest sub-terms that agree numerically but have different value numbers
	void explain(N a, N b)
	{
		std::set<N> A, Bs;
		std::function<void(N, std::set<N> &)> walk = [&](N n, std::set<N> &s) { if (!s.insert(n).second) return; for (N x : n->a) walk(x, s); for (auto &p : n->ps) if (p.n) walk(p.n, s); };
		walk(a, A); walk(b, Bs); if (getenv("HASHAN_SWAP")) std::swap(A, Bs);
		std::map<pair<unsigned, vector<uint64_t>>, N> fp;
		auto print = [&](N n) { return std::make_pair(0u, laneVec(n, 0, 12345)); };
		for (N n : A) fp[print(n)] = n;
		vector<N> bs(Bs.begin(), Bs.end()); std::sort(bs.begin(), bs.end(), [](N x, N y) { return x->id < y->id; });
		int shown = 0;
		for (N n : bs)
		{
			if (A.count(n)) continue;
			bool kids = true; for (N x : n->a) kids = kids && A.count(x); for (auto &p : n->ps) if (p.n) kids = kids && A.count(p.n);
			auto it = fp.find(print(n));
			if (it == fp.end()) continue;
			std::cerr << "EXPLAIN " << (it == fp.end() ? "no counterpart" : "differs") << ": " << show(n, 3) << "\n   vs " << (it == fp.end() ? "-" : show(it->second, 3)) << "\n";
			if (++shown >= 6) break;
		}
	}
	bool cmpBytes(const Bytes &a, const Bytes &b, const string &what, const char *cnt)
	{
		for (size_t i = 0; i < a.size(); ++i)
		{
			Cmp c = compare(a[i], b[i]);
			if (c == Same) { ++d.rep.count[string(cnt) + "_identical"]; continue; }
			if ((c == Random || c == Differ) && d.cfg.has("explain")) { static int cnt2 = 0; if (cnt2++ < 2) explain(a[i], b[i]); }
			if (c == Random) { ++d.rep.count[string(cnt) + "_by_random_interpretation"]; continue; }
			if (c == Unknown) { undecidedAddr = undecidedAddr || mentionsAddr(a[i]); d.rep.incomplete.push_back(what + ": byte " + std::to_string(i) + " agrees on sampled valuations but contains data-dependent selection"); continue; }
			d.rep.add(prop, "value", what + ": byte " + std::to_string(i) + " is " + show(a[i], 3) + " but the definition gives " + show(b[i], 3));
			return false;
		}
		return true;
	}
	void run()
	{
		init();
		if (mapped)
		{
			bool ok = true;
			// uniform step
			Facts f = d.mk(3, -1);
			d.parts(f, [&] {
				N P = d.cur(d.p); if (isConst(P)) return;
				newTranslation();
				Mem m = base; m.mut(so).cells = Y[3].get(so).cells;
				for (size_t i = 0; i < sw.size(); ++i) d.putWord(m, sw[i], specAtom(i, P));
				block(m, P);
				vector<N> ss; for (auto &w : sw) ss.push_back(d.getWord(m, w));
				for (size_t i = 0; i < d.words.size(); ++i)
				{
					if (!live.count(i)) continue;
					N t = translate(d.I.chain.step[i]);
					Bytes a, b;
					for (unsigned s = 0; s < d.words[i].bytes; ++s) { auto e = map.at({i, s}); a.push_back(slice(t, 8 * s, 8)); b.push_back(slice(ss[e.first], 8 * e.second, 8)); }
					if (t == ss[map.at({i, 0}).first] ) { d.rep.count["step_bytes_identical"] += a.size(); continue; }
					ok = cmpBytes(a, b, "block function, state word " + std::to_string(i), "step_bytes") && ok;
				}
			});
			struct Off { ChainInfo &c; Off(ChainInfo &x) : c(x) { c.on = false; } ~Off() { c.on = true; } } off(d.I.chain);
			struct W { bool &w; W(bool &x, bool v) : w(x) { w = v; } ~W() { w = false; } } on(d.wide, d.I.pw == 32);
			for (auto &g : d.digests)
			{
				d.parts(g.f, [&] {
					newTranslation();
					Mem m = base; m.mut(so).cells = Y[3].get(so).cells;
					N cp = chainPos(g.P, g.k);
					for (size_t i = 0; i < sw.size(); ++i) d.putWord(m, sw[i], specAtom(i, cp));
					Bytes want = finalAt(m, g.P, g.k), got;
					for (N b : g.d) got.push_back(translate(b));
					cmpBytes(got, want, "digest for " + lenText(g) , "digest_bytes");
				});
			}
			d.rep.count["lengths_classes_compared"] = d.digests.size();
			if (undecidedAddr) bounded("the digest may depend on where objects lie");
		}
		else bounded();
	}
	string lenText(const Drv::Dig &g) { return "messages of " + (isConst(g.P) ? std::to_string((long long)((i128)g.P->k * B + g.k)) : g.P == d.p ? std::to_string(B) + "*n+" + std::to_string(g.k) : show(d.bpos(g.P, g.k), 3)) + " bytes"; }
	// no correspondence of chaining values: compare whole digests for short messages
	void bounded(const string &because = "chaining state has no byte-wise counterpart")
	{
		d.rep.notes.push_back(because + "; whole digests compared for single adds of up to three blocks only");
		if (Y0.objs.empty()) { Off2 off(d.I.chain); d.parts(d.mk(0, 0), [&] { d.S0 = d.zero; d.ctor(d.S0, d.self); Mem m = base; d.callv("s_init", {d.V(d.I.ptrTo(so)), d.V(d.I.ptrTo(d.key))}, m); Y0 = m; }); }
		bool sv = d.I.chain.on; d.I.chain.on = false;
		for (long n = 0; n < 3 * B; ++n)
		{
			if (!d.wanted(n % B)) continue;
			if (d.rep.findings.size() > 4) break;
			d.parts(d.mk(0, 0), [&] {
				Mem m = d.S0; if (n) d.add(m, d.c64(0), d.c64(n)); d.fin(m); Bytes got = d.arr(m);
				Mem y = Y0; long nb = n / B; if (lazy && n && n % B == 0) --nb;
				for (long i = 0; i < nb; ++i) block(y, d.c64(i));
				Bytes want = final(y, d.c64(nb), n - nb * B);
				cmpBytes(got, want, "digest for messages of " + std::to_string(n) + " bytes", "bounded_digest_bytes");
			});
		}
		d.I.chain.on = sv;
	}
};
