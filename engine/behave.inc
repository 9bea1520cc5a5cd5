// Reset, copy/move/assignment, output, input-overload and equality analyses over the canonical state families.
struct Behave
{
	Drv &d; Interp &I; Report &rep; const Config &cfg; long B; bool quick; uint64_t D;
	Behave(Drv &x) : d(x), I(x.I), rep(x.rep), cfg(x.cfg), B(x.B), quick(x.quick), D(x.cfg.num("D")) {}
	typedef std::map<uint32_t, uint32_t> IdMap;
	uint32_t other() const { return d.self2; }

	// ---- structural comparison of two hashers, objects reached through pointers matched one to one
	static bool addrOf(N n, uint32_t &o) { if (n->op == Op::Atom && n->ak == AK::Addr) { o = (uint32_t)n->k; return true; } if (n->op == Op::Lin) for (N x : n->a) if (x->op == Op::Atom && x->ak == AK::Addr) { o = (uint32_t)x->k; return true; } return false; }
	// `data`: cells holding different data values are collected there instead of failing
	bool iso(const Mem &a, uint32_t ra, const Mem &b, uint32_t rb, IdMap *mpOut = nullptr, string *why = nullptr, std::set<string> *sig = nullptr)
	{
		IdMap mp, inv; vector<pair<uint32_t, uint32_t>> work{{ra, rb}}; mp[ra] = rb; inv[rb] = ra;
		bool ok = true;
		auto fail = [&](uint32_t o, size_t i, const string &s, const string &sg) { ok = false; if (why && why->empty()) *why = (o == ra ? string("hasher byte ") : a.get(o).name + " byte ") + std::to_string(i) + ": " + s; if (sig) sig->insert((o == ra ? string("h") : "o" + std::to_string(o)) + "+" + std::to_string(i) + sg); };
		while (!work.empty())
		{
			auto [x, y] = work.back(); work.pop_back();
			const Obj &p = a.get(x), &q = b.get(y);
			if (p.cells.size() != q.cells.size()) { fail(x, 0, "sizes of owned blocks differ", "s" + std::to_string(p.cells.size()) + "/" + std::to_string(q.cells.size())); if (!sig) return false; continue; }
			if (p.alive != q.alive) { fail(x, 0, "one owned block is released", "dead"); if (!sig) return false; continue; }
			for (size_t i = 0; i < p.cells.size(); ++i)
			{
				const Cell &c = p.cells[i], &e = q.cells[i];
				if (!c.n && !e.n) continue;
				if (!c.n || !e.n) { fail(x, i, "initialised on one side only", c.n ? "u" : "i"); if (!sig) return false; continue; }
				if (isConst(c.n) && isConst(e.n)) { if (Drv::cellByte(c) != Drv::cellByte(e)) { fail(x, i, show(Drv::cellByte(c), 2) + " against " + show(Drv::cellByte(e), 2), "c" + std::to_string((int)Drv::cellByte(c)->k)); if (!sig) return false; } continue; }
				uint32_t o1, o2; bool f1 = addrOf(c.n, o1), f2 = addrOf(e.n, o2);
				if (f1 || f2)
				{
					bool same = f1 && f2 && c.sig == e.sig && sub(c.n, d.I.ptrTo(o1)) == sub(e.n, d.I.ptrTo(o2));
					if (same)
					{
						if (o1 < d.self || a.get(o1).kind == OK::Global) same = o1 == o2;
						else
						{
							auto i1 = mp.find(o1); auto i2 = inv.find(o2);
							if (i1 == mp.end() && i2 == inv.end()) { mp[o1] = o2; inv[o2] = o1; work.push_back({o1, o2}); }
							else same = i1 != mp.end() && i1->second == o2;
						}
					}
					if (!same) { fail(x, i, "pointers differ: " + show(c.n, 2) + " against " + show(e.n, 2), "p"); if (!sig) return false; }
					continue;
				}
				Cmp r = d.compare(Drv::cellByte(c), Drv::cellByte(e));
				if (r == Differ || r == Unknown) { fail(x, i, show(Drv::cellByte(c), 2) + " against " + show(Drv::cellByte(e), 2), "d"); if (!sig) return false; }
				else if (r == Random) ++rep.count["cells_equal_by_random_interpretation"];
			}
		}
		if (mpOut) *mpOut = mp;
		return ok;
	}
	std::set<uint32_t> reach(const Mem &m, uint32_t r)
	{
		std::set<uint32_t> s{r}; vector<uint32_t> w{r};
		while (!w.empty()) { uint32_t o = w.back(); w.pop_back(); for (auto &c : m.get(o).cells) { uint32_t t; if (c.n && c.n->aff && !isConst(c.n) && addrOf(c.n, t) && t >= d.self && s.insert(t).second) w.push_back(t); } }
		return s;
	}
	// the old message's bytes and chaining values, renamed so that they cannot be mistaken for the new message's
	Mem rename(Mem m, uint64_t msg = 2, uint64_t ch = 500)
	{
		Subst S;
		S.atom = [&](N a) -> N {
			if (a->ak == AK::Msg && a->k == 0) return mkAtom(AK::Msg, a->w, msg, a->a[0]);
			if (a->ak == AK::Chain && a->k < 500) return mkAtom(AK::Chain, a->w, a->k + ch, a->a[0]);
			return a;
		};
		for (uint32_t o = d.self; o < m.objs.size(); ++o)
		{
			if (o == d.out || !m.get(o).alive || (o > d.self2 && m.get(o).kind != OK::Heap)) continue;
			bool any = false; for (auto &c : m.get(o).cells) if (c.n && !c.n->aff) any = true;
			if (any) for (auto &c : m.mut(o).cells) if (c.n && !c.n->aff) c.n = S(c.n);
		}
		return m;
	}
	struct ChainOff { bool &b, o; ChainOff(bool &x, bool v = false) : b(x), o(x) { b = v; } ~ChainOff() { b = o; } };
	string hist(long k, int z, bool fin) { return (z ? std::to_string(B) + "*n+" : string()) + std::to_string(k) + " bytes" + (fin ? ", finalized" : ""); }
	std::set<long> sample(int extra = 0)
	{
		std::set<long> s{0, 1 % B, B / 2, B - 1, B > 8 ? B - 8 : 0, B > 9 ? B - 9 : 0, B > 16 ? B - 16 : 0, B > 17 ? B - 17 : 0};
		if (!quick) for (long k = 0; k < B; ++k) s.insert(k);
		std::set<long> r; for (long k : s) if (k >= 0 && k < B && d.wanted(k)) r.insert(k);
		return r;
	}
	// a point in a hasher's life: z*B*n + k bytes for every n (families), or the given pieces (concrete histories, when the families are not available)
	bool conc = false;
	struct Pt { long k = 0; int z = 0; vector<long> pieces; };
	vector<Pt> points(const std::set<long> &ks)
	{
		vector<Pt> r;
		if (!conc) { for (long k : ks) for (int z : {0, 1}) r.push_back({k, z, {}}); return r; }
		std::set<vector<long>> hs{{}, {0}, {1}, {B / 2}, {B - 1}, {B}, {B + 1}, {B - 1, 2}};
		if (!quick) for (long k : ks) { hs.insert({k}); hs.insert({k, B}); }
		if (B > 9) { hs.insert({B - 9}); hs.insert({B - 8}); }
		if (B > 17) hs.insert({B - 17});
		for (auto &h : hs) r.push_back({0, 0, h});
		return r;
	}
	// a point that cannot be analysed leaves the others to be
	template <class Fn> void at(const Pt &pt, Fn fn)
	{
		try
		{
			if (conc) { d.parts(d.mk(0, 0), [&] { ChainOff off(I.chain.on); Mem m = fresh(); long n = 0; for (long l : pt.pieces) { d.add(m, d.c64(n), d.c64(l)); n += l; } fn(m, d.c64(n)); }); return; }
			d.parts(pt.z ? d.mk(1, -1) : d.mk(0, 0), [&] { N P = d.cur(d.p); fn(d.inst(pt.k, pt.z, P), d.bpos(P, pt.k)); });
		}
		catch (Incomplete &e) { if (std::find(rep.incomplete.begin(), rep.incomplete.end(), e.what) == rep.incomplete.end() && rep.incomplete.size() < 20) rep.incomplete.push_back(e.what); }
	}
	string hist(const Pt &pt, bool fin)
	{
		if (!conc) return hist(pt.k, pt.z, fin);
		string s; for (long l : pt.pieces) s += (s.empty() ? "" : " then ") + std::to_string(l) + " bytes";
		return (s.empty() ? string("no input") : s) + (fin ? ", finalized" : "");
	}
	// every state of the hasher:  fn(state, position, history, finalised)
	template <class Fn> void states(const std::set<long> &ks, Fn fn)
	{
		for (auto &pt : points(ks)) for (int f = 0; f < 2; ++f)
			at(pt, [&](Mem m, N n0) { if (f) d.fin(m); fn(m, n0, hist(pt, f), f == 1); });
	}
	std::set<long> lengths()
	{
		std::set<long> r{0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1};
		for (long x : {8L, 9L, 16L, 17L}) if (B > x) { r.insert(B - x); r.insert(B - x + 1); }
		return r;
	}
	bool digDiffer(const string &prop, const string &kind, const Bytes &x, const Bytes &y, const string &what)
	{
		size_t at = 0; ++rep.count["digests_compared"];
		Cmp c = d.compareBytes(x, y, at);
		if (c == Differ) { rep.add(prop, kind, what + ": byte " + std::to_string(at) + (at < x.size() && at < y.size() ? " is " + show(x[at], 3) + " instead of " + show(y[at], 3) : string(" exists on one side only"))); return true; }
		if (c == Unknown) rep.incomplete.push_back(what + ": digests not comparable");
		return false;
	}
	// two unfinalised hashers at the same point of the same message must go on identically
	bool sameFuture(const string &prop, const string &kind, const Mem &a, uint32_t oa, const Mem &b, uint32_t ob, N n0, bool finalised, const string &what, const std::set<long> &rs)
	{
		if (finalised) { Mem x = a, y = b; return digDiffer(prop, kind, d.arr(x, "h_arr", 0, oa), d.arr(y, "h_arr", 0, ob), what); }
		for (long r : rs)
		{
			Mem x = a, y = b;
			if (r) { d.add(x, n0, d.c64(r), oa); d.add(y, n0, d.c64(r), ob); }
			d.fin(x, oa); d.fin(y, ob);
			if (digDiffer(prop, kind, d.arr(x, "h_arr", 0, oa), d.arr(y, "h_arr", 0, ob), what + ", then " + std::to_string(r) + " more bytes and finalize")) return true;
		}
		return false;
	}
	Mem fresh() { Mem m = d.zero; d.ctor(m, d.self); return m; }
	bool ivWords(const Mem &m, uint32_t at) { if (!I.chain.on) return false; for (size_t i = 0; i < d.words.size(); ++i) { if (d.words[i].obj != d.self) return false; Word w = d.words[i]; w.obj = at; if (d.getWord(m, w) != d.iv[i]) return false; } return true; }

	// ---- reset (R01)
	void reset()
	{
		const string prop = "R01";
		Mem base; d.parts(d.mk(0, 0), [&] { base = fresh(); });
		struct Alt { Mem m; std::set<string> sig; };
		vector<Alt> alts; int bad = 0;
		std::function<void(const Mem &, const string &, int)> check = [&](const Mem &r, const string &h, int depth) {
			++rep.count["reset_states"];
			string why; std::set<string> sig;
			if (iso(r, d.self, base, d.self, nullptr, &why, &sig)) { ++rep.count["reset_identical"]; return; }
			for (auto &a : alts) if (iso(r, d.self, a.m, d.self)) { ++rep.count["reset_as_earlier"]; return; }
			for (auto &a : alts) if (a.sig == sig && depth > 1) { ++rep.count["reset_as_earlier"]; return; }
			if (alts.size() > 24 || bad > 3) { if (rep.incomplete.size() < 20) rep.incomplete.push_back("reset after " + h + " leaves another state: " + why); return; }
			alts.push_back({r, sig});
			// behaves like a new one?
			Facts f = *F;
			bool named = ivWords(r, d.self);
			ChainOff off(I.chain.on);
			for (long n : lengths())
			{
				Mem x = r, y = base;
				if (n) { d.add(x, d.c64(0), d.c64(n)); d.add(y, d.c64(0), d.c64(n)); }
				d.fin(x); d.fin(y);
				if (digDiffer(prop, "reset", d.arr(x), d.arr(y), "after " + h + " and reset, hashing " + std::to_string(n) + " bytes differs from a new hasher")) { ++bad; return; }
				++rep.count["reset_behaviours_compared"];
				if (depth < 3) for (int ff : {0, 1}) if (n == 0 || n == 1 || n == B + 1)
				{
					Mem m2 = r; if (n) d.add(m2, d.c64(0), d.c64(n)); if (ff) d.fin(m2);
					m2 = rename(m2, 3 + depth, 600 + depth * 50); d.reset(m2); check(m2, h + ", reset, " + std::to_string(n) + " bytes" + (ff ? ", finalized" : ""), depth + 1);
				}
			}
			if (named)
			{
				ChainOff on(I.chain.on, true);
				auto put = [&](Mem m) { for (size_t i = 0; i < d.words.size(); ++i) d.putWord(m, d.words[i], mkAtom(AK::Chain, d.words[i].bytes * 8, d.alias[i], d.c64(0))); return m; };
				for (long k : {0L, B - 1}) for (int ff = 0; ff < 1; ++ff)
				{
					Mem x = put(r), y = put(base); N L = d.bpos(d.cur(d.p), k);
					if (isConst(L)) continue;
					d.add(x, d.c64(0), L); d.add(y, d.c64(0), L); d.fin(x); d.fin(y);
					if (digDiffer(prop, "reset", d.arr(x), d.arr(y), "after " + h + " and reset, hashing " + hist(k, 1, false) + " differs from a new hasher")) { ++bad; return; }
				}
			}
		};
		d.parts(d.mk(0, 0), [&] { Mem r = base; d.reset(r); check(r, "construction", 0); });
		states(d.quick ? sample() : sample(1), [&](const Mem &m0, N, const string &h, bool) { Mem m = rename(m0); d.reset(m); check(m, h, 0); });
	}

	// ---- copies and moves (S01)
	void dtor(Mem &m, uint32_t at) { d.callv("h_dtor", {d.V(I.ptrTo(at))}, m); for (auto &c : m.mut(at).cells) c = Cell(); }
	void leaks(const Mem &m, const Mem &before, const string &what)
	{
		for (uint32_t o = d.self2 + 1; o < m.objs.size(); ++o) if (m.get(o).kind == OK::Heap && m.get(o).alive) { rep.add("M01", "leak", what + " leaves " + m.get(o).name + " unreleased"); return; }
		++rep.count["leak_checks"];
	}
	void copies()
	{
		const string prop = "S01";
		bool assignable = d.constFn("h_assignable") != 0, massignable = d.constFn("h_massignable") != 0;
		bool hasAlt = I.has("h_ctor2");
		std::set<long> rs{0, 1, B};
		int bad = 0;
		std::set<long> ks = sample();
		if (quick) { std::set<long> s; for (long k : {0L, 1 % B, B / 2, B - 1}) if (d.wanted(k)) s.insert(k); ks = s; }
		// targets of assignments
		struct Tgt { string name; Mem m; };
		vector<Tgt> targets;
		if (assignable || massignable)
		{
			d.parts(d.mk(0, 0), [&] {
				targets.clear();
				ChainOff off(I.chain.on);
				auto mkT = [&](const string &n, bool alt, long len, bool fin, bool moved) {
					Mem m = d.zero;
					if (alt) d.ctor(m, d.self2, "h_ctor2"); else d.ctor(m, d.self2);
					if (len) d.add(m, d.c64(0), d.c64(len), d.self2);
					if (fin) d.fin(m, d.self2);
					if (moved) { Mem t = m; uint32_t tmp = t.alloc(OK::Self, t.get(d.self2).size, "third hasher"); t.mut(tmp).align = t.get(d.self2).align; d.callv("h_move", {d.V(I.ptrTo(tmp)), d.V(I.ptrTo(d.self2))}, t); dtor(t, tmp); t.mut(tmp).alive = false; m = t; }
					targets.push_back({n, rename(m)});
				};
				mkT("new", false, 0, false, false); mkT("mid-message", false, B + 1, false, false); mkT("finalized", false, 1, true, false); mkT("moved-from", false, 3, false, true);
				if (hasAlt) { mkT("differently parameterised", true, 1, false, false); mkT("differently parameterised finalized", true, B + 1, true, false); mkT("differently parameterised moved-from", true, 0, false, true); }
			});
		}
		states(ks, [&](const Mem &m, N n0, const string &h, bool f) {
			if (bad > 3) return;
			// place the target's objects next to the source's
			auto with = [&](const Mem &src, const Mem &tgt) {
				Mem r = src; std::map<uint32_t, uint32_t> id;
				for (uint32_t o = d.self2 + 1; o < tgt.objs.size(); ++o) if (tgt.get(o).kind == OK::Heap) { uint32_t n = r.alloc(OK::Heap, tgt.get(o).size, tgt.get(o).name); id[o] = n; r.mut(n) = tgt.get(o); }
				r.mut(d.self2) = tgt.get(d.self2);
				Subst S; S.atom = [&](N a) -> N { if (a->ak == AK::Addr) { auto i = id.find((uint32_t)a->k); if (i != id.end()) return I.ptrTo(i->second); } return a; };
				vector<uint32_t> os{d.self2}; for (auto &x : id) os.push_back(x.second);
				for (uint32_t o : os) for (auto &c : r.mut(o).cells) { uint32_t t; if (c.n && !isConst(c.n) && addrOf(c.n, t)) c.n = S(c.n); }
				return r;
			};
			auto same = [&](const Mem &a, uint32_t oa, const string &what) -> bool {
				string why; if (iso(a, oa, m, d.self, nullptr, &why)) { ++rep.count["value_states_identical"]; return true; }
				++rep.count["value_states_by_behaviour"];
				if (sameFuture(prop, "copy", a, oa, m, d.self, n0, f, what, rs)) { ++bad; return false; }
				return true;
			};
			auto unchanged = [&](const Mem &a, uint32_t oa, const Mem &b, uint32_t ob, const string &what) -> bool {
				if (iso(a, oa, b, ob)) { ++rep.count["independence_identical"]; return true; }
				if (sameFuture(prop, "alias", a, oa, b, ob, n0, f, what, rs)) { ++bad; return false; }
				return true;
			};
			// use one object in every way; the other must not notice
			auto disturb = [&](const Mem &both, uint32_t used, uint32_t kept, const string &what) {
				Mem x = both;
				if (!f) { d.add(x, n0, d.c64(1), used); if (!unchanged(x, kept, both, kept, what + ", then adding to the other")) return; d.fin(x, used); if (!unchanged(x, kept, both, kept, what + ", then finalizing the other")) return; }
				Mem y = x; d.reset(y, used); if (!unchanged(y, kept, both, kept, what + ", then resetting the other")) return;
				d.add(y, d.c64(0), d.c64(B + 1), used); if (!unchanged(y, kept, both, kept, what + ", then resetting and reusing the other")) return;
				Mem w = x; dtor(w, used); if (!unchanged(w, kept, both, kept, what + ", then destroying the other")) return;
				dtor(w, kept); leaks(w, m, what + " and destruction of both");
				++rep.count["independence_checks"];
			};
			// through the type itself and through its base class (the alias types accept both)
			for (const char *suf : {"", "_b"})
			{
			if (*suf && !I.has("h_copy_b")) break;
			auto F_ = [&](const char *n) { return string(n) + suf; };
			string how = *suf ? "(through the base class) " : "";
			{
				Mem c = m; d.callv(F_("h_copy"), {d.V(I.ptrTo(d.self2)), d.V(I.ptrTo(d.self))}, c);
				if (!same(c, d.self, "copying from a hasher holding " + h + " changes it")) return;
				if (!same(c, d.self2, how + "copy of a hasher holding " + h)) return;
				disturb(c, d.self2, d.self, how + "copy of a hasher holding " + h); disturb(c, d.self, d.self2, how + "copy of a hasher holding " + h);
			}
			{
				Mem c = m; d.callv(F_("h_move"), {d.V(I.ptrTo(d.self2)), d.V(I.ptrTo(d.self))}, c);
				if (!same(c, d.self2, how + "move of a hasher holding " + h)) return;
				Mem w = c; dtor(w, d.self); if (!unchanged(w, d.self2, c, d.self2, "destroying the source of a move")) return;
				dtor(w, d.self2); leaks(w, m, "move construction and destruction of both");
			}
			if (assignable)
			{
				Mem s = m; d.callv(F_("h_assign"), {d.V(I.ptrTo(d.self)), d.V(I.ptrTo(d.self))}, s);
				same(s, d.self, "self-assignment of a hasher holding " + h);
			}
			for (auto &t : targets)
			{
				if (bad > 3) return;
				Mem b = with(m, t.m);
				if (assignable)
				{
					Mem c = b; d.callv(F_("h_assign"), {d.V(I.ptrTo(d.self2)), d.V(I.ptrTo(d.self))}, c);
					string w = how + "assignment of a hasher holding " + h + " to a " + t.name + " one";
					if (!same(c, d.self, w + " changes the source")) return;
					if (!same(c, d.self2, w)) return;
					if (isConst(n0) || !quick) { disturb(c, d.self2, d.self, w); disturb(c, d.self, d.self2, w); }
				}
				if (massignable)
				{
					Mem c = b; d.callv(F_("h_massign"), {d.V(I.ptrTo(d.self2)), d.V(I.ptrTo(d.self))}, c);
					string w = how + "move assignment of a hasher holding " + h + " to a " + t.name + " one";
					if (!same(c, d.self2, w)) return;
					Mem x = c; dtor(x, d.self); if (!unchanged(x, d.self2, c, d.self2, w + ", then destroying the source")) return;
					dtor(x, d.self2); leaks(x, m, w + " and destruction of both");
					if (assignable)
					{
						// the moved-from source can be assigned again
						Mem y = c; d.callv(F_("h_assign"), {d.V(I.ptrTo(d.self)), d.V(I.ptrTo(d.self2))}, y);
						if (!same(y, d.self, w + ", then assigning back")) return;
					}
				}
			}
			}
		});
	}

	// ---- havoc: every distinct data value of a finalised state replaced by a fresh unknown
	uint64_t havocNo = 0;
	Mem havoc(const Mem &m, uint32_t root, std::map<N, N> &by, uint64_t salt)
	{
		Mem r = m;
		for (uint32_t o : reach(m, root)) for (auto &c : r.mut(o).cells)
		{
			if (!c.n || c.n->aff) continue;
			N b = Drv::cellByte(c); if (isConst(b)) { c = {b, 0}; continue; }
			auto &x = by[b]; if (!x) x = mkAtom(AK::Msg, 8, 40 + salt, d.c64(havocNo++));
			c = {x, 0};
		}
		return r;
	}
	N conv(Mem &m, const string &f) { Val v = I.call(f, {d.V(I.ptrTo(d.self))}, m); if (!v.n) throw Incomplete{f + " returns nothing"}; return v.n; }
	Bytes text(Mem &m, const string &f, uint32_t at = 0)
	{
		for (auto &c : m.mut(d.out).cells) c = Cell();
		bool dead = false; Val v = I.call(f, {d.V(I.ptrTo(at ? at : d.self)), d.V(I.ptrTo(d.out))}, m, &dead);
		if (dead) throw DeadCall{f};
		if (!v.n || !isConst(v.n)) throw Incomplete{"length of the result of " + f + " is not determined"};
		Bytes b; for (uint64_t i = 0; i < (uint64_t)v.n->k && i < m.get(d.out).cells.size(); ++i) { const Cell &c = m.get(d.out).cells[i]; b.push_back(c.n ? slice(c.n, c.sig * 8, 8) : mkUndef(8)); }
		return b;
	}
	static N hexDigit(N nib) { N x = zext(nib, 8); return ite(icmp(Pred::ULT, x, mkConst(8, 10)), affPlus(x, '0'), affPlus(x, 'a' - 10)); }
	// a function of one byte compared value by value
	bool sameFn(N got, N want, N leaf)
	{
		if (got == want) return true;
		for (int v = 0; v < 256; ++v)
		{
			Subst S; S.atom = [&](N a) -> N { return a == leaf ? mkConst(8, v) : a; };
			N x = S(got), y = S(want);
			if (x != y) return false;
		}
		return true;
	}
	bool expect(const Bytes &got, const Bytes &want, const string &what)
	{
		if (got.size() != want.size()) { rep.add("O01", "output", what + " has " + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size())); return false; }
		for (size_t i = 0; i < got.size(); ++i)
		{
			++rep.count["output_bytes"];
			if (got[i] == want[i]) { ++rep.count["output_bytes_identical"]; continue; }
			if (I.readsUnset(got[i])) { rep.add("O01", "output", what + ": byte " + std::to_string(i) + " is never set"); return false; }
			bool dec; bool df = lanesDiffer(got[i], want[i], 16, d.seed * 31 + i, &dec);
			if (df) { rep.add("O01", "output", what + ": byte " + std::to_string(i) + " is " + show(got[i], 4) + " instead of " + show(want[i], 4)); return false; }
			// exact check when it is a function of one digest byte
			std::set<N> seen; vector<N> st{got[i], want[i]}; std::set<N> leaves;
			while (!st.empty()) { N x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == Op::Atom) leaves.insert(x); for (N y : x->a) st.push_back(y); for (auto &p : x->ps) if (p.n) st.push_back(p.n); }
			if (leaves.size() == 1 && (*leaves.begin())->w == 8)
			{
				if (sameFn(got[i], want[i], *leaves.begin())) { ++rep.count["output_bytes_by_enumeration"]; continue; }
				rep.add("O01", "output", what + ": byte " + std::to_string(i) + " is " + show(got[i], 4) + " instead of " + show(want[i], 4)); return false;
			}
			if (hasDataCmp(got[i]) || hasDataCmp(want[i]))
			{
				if (directed({}, got[i], want[i], d.seed * 37 + i)) { rep.add("O01", "output", what + ": byte " + std::to_string(i) + " is " + show(got[i], 4) + " instead of " + show(want[i], 4)); return false; }
				if (rep.incomplete.size() < 20) rep.incomplete.push_back(what + ": byte " + std::to_string(i) + " agrees on sampled valuations but contains data-dependent selection");
				continue;
			}
			++rep.count["output_bytes_by_random_interpretation"];
		}
		return true;
	}
	void outputs()
	{
		const string prop = "O01";
		std::set<string> shapes; int bad = 0;
		auto one = [&](const Mem &m0, const string &h) {
			if (bad > 2) return;
			std::map<N, N> by;
			Mem m = havoc(m0, d.self, by, 0);
			for (auto &c : m.mut(d.out).cells) c = Cell();
			const Mem start = m;
			auto still = [&](const string &f) { string why; if (!iso(m, d.self, start, d.self, nullptr, &why)) { rep.add(prop, "const", f + " of a hasher holding " + h + " changes it (" + why + ")"); ++bad; return false; } m = start; ++rep.count["const_outputs"]; return true; };
			Bytes dig = d.arr(m); if (!still("reading the digest")) return;
			for (N b : dig) if (I.readsUnset(b)) { if (getenv("HASHAN_DEBUG")) { std::cerr << "undef " << show(b, 6) << "\n"; for (size_t i = 0; i < m0.get(d.self).cells.size(); ++i) { auto &c = m0.get(d.self).cells[i]; std::cerr << i << ":" << (c.n ? show(c.n, 3) : "-") << " "; } std::cerr << "\n"; } rep.add(prop, "output", "digest of a hasher holding " + h + " has a byte that is never set"); ++bad; return; }
			Bytes vec = text(m, "h_vec"); if (!still("toVector")) return;
			if (!expect(vec, dig, "toVector after " + h)) { ++bad; return; }
			Bytes ar = text(m, "h_array"); if (!still("toArray")) return;
			if (!ar.empty() && !expect(ar, dig, "toArray after " + h)) { ++bad; return; }
			Bytes hex; for (N b : dig) { hex.push_back(hexDigit(slice(b, 4, 4))); hex.push_back(hexDigit(slice(b, 0, 4))); }
			Bytes str = text(m, "h_str"); if (!still("toString")) return;
			if (!expect(str, hex, "toString after " + h)) { ++bad; return; }
			struct CV { const char *f; unsigned w; };
			N full = nullptr;
			for (CV c : {CV{"h_u8", 8}, CV{"h_u16", 16}, CV{"h_u32", 32}, CV{"h_u64", 64}, CV{"h_ull", 64}, CV{"h_size_t", I.pw}, CV{"h_hash", I.pw}})
			{
				if (!I.has(c.f)) continue;
				N v = conv(m, c.f); if (!still(c.f)) return;
				vector<N> low; for (size_t i = std::min<size_t>(c.w / 8, dig.size()); i-- > 0;) low.push_back(dig[i]);
				N want = low.empty() ? mkConst(c.w, 0) : zext(catNodes(low), c.w);
				Bytes g, w; for (unsigned i = 0; i < c.w; i += 8) { g.push_back(slice(v, i, 8)); w.push_back(slice(want, i, 8)); }
				if (!expect(g, w, string(c.f[2] == 'h' ? "std::hash" : "conversion to a " + std::to_string(c.w) + "-bit integer") + " after " + h)) { ++bad; return; }
				(void)full;
			}
			// asking again, in another order, gives the same answers (the state did not change)
			++rep.count["output_states"];
		};
		auto shape = [&](const Mem &m) { string s; for (uint32_t o : reach(m, d.self)) for (auto &c : m.get(o).cells) { if (!c.n) s += 'u'; else if (isConst(c.n)) s += std::to_string((int)Drv::cellByte(c)->k) + ','; else s += c.n->aff ? 'p' : 'd'; } return s; };
		states(sample(), [&](const Mem &m, N, const string &h, bool f) { if (!f) return; string s = shape(m); if (!shapes.insert(s).second) { ++rep.count["output_states_same_shape"]; return; } one(m, h); });
	}

	// ---- what operations write to (T01)
	void effects()
	{
		const string prop = "T01";
		int bad = 0;
		auto named = [&](uint32_t o, const Mem &m, uint32_t root) { return o == root ? string("the hasher itself") : m.get(o).name; };
		// objects of `kept` that an operation writes to
		auto writes = [&](const Mem &m, uint32_t kept, const string &what, auto op) {
			if (bad > 3) return;
			auto r = reach(m, kept); Mem x = m;
			I.writtenObjs.clear(); I.trackWrites = true;
			struct Off { bool &b; ~Off() { b = false; } } off{I.trackWrites};
			op(x);
			++rep.count["operations_with_write_sets"];
			for (uint32_t o : I.writtenObjs) if (r.count(o)) { rep.add(prop, "write", what + " writes to " + named(o, m, kept)); ++bad; return; }
		};
		auto sp = [&](uint32_t o) { return d.V(I.ptrTo(o)); };
		std::set<string> shapes;
		std::set<long> ks; for (long k : {0L, 1 % B, B / 2, B - 1}) if (d.wanted(k)) ks.insert(k);
		if (!quick) ks = sample();
		bool assignable = d.constFn("h_assignable") != 0;
		states(ks, [&](const Mem &m, N n0, const string &h, bool f) {
			if (bad > 3) return;
			if (f)
			{
				writes(m, d.self, "reading the digest of a hasher holding " + h, [&](Mem &x) { d.arr(x); });
				for (const char *fn : {"h_vec", "h_array", "h_str"}) if (I.has(fn)) writes(m, d.self, string(fn + 2) + " output of a hasher holding " + h, [&](Mem &x) { text(x, fn); });
				for (const char *fn : {"h_u8", "h_u16", "h_u32", "h_u64", "h_ull", "h_size_t", "h_hash"}) if (I.has(fn)) writes(m, d.self, string("conversion ") + (fn + 2) + " of a hasher holding " + h, [&](Mem &x) { conv(x, fn); });
			}
			std::map<uint32_t, uint32_t> id; Mem t = twin(m, id);
			for (const char *fn : {"h_eq", "h_ne"}) for (uint32_t o : {d.self, d.self2}) writes(t, o, string("comparison ") + (fn[2] == 'e' ? "==" : "!=") + " of hashers holding " + h, [&](Mem &x) { I.call(fn, {sp(d.self), sp(d.self2)}, x); });
			for (const char *fn : {"h_copy", "h_copy_b"}) if (I.has(fn))
			{
				Mem c = m;
				writes(m, d.self, "copying a hasher holding " + h, [&](Mem &x) { d.callv(fn, {sp(d.self2), sp(d.self)}, x); c = x; });
				for (int w = 0; w < 2; ++w)
				{
					uint32_t use = w ? d.self : d.self2, keep = w ? d.self2 : d.self;
					const string who = string("of ") + (w ? "the source of a copy" : "a copy") + " of a hasher holding " + h + " also";
					if (!f) { writes(c, keep, "adding to one " + who, [&](Mem &x) { d.add(x, n0, d.c64(1), use); }); writes(c, keep, "finalizing one " + who, [&](Mem &x) { d.fin(x, use); }); }
					writes(c, keep, "resetting one " + who, [&](Mem &x) { d.reset(x, use); });
					writes(c, keep, "destroying one " + who, [&](Mem &x) { dtor(x, use); });
				}
				if (assignable && string(fn) == "h_copy") writes(c, d.self, "assigning from a hasher holding " + h, [&](Mem &x) { d.callv("h_assign", {sp(d.self2), sp(d.self)}, x); });
			}
		});
	}

	// static objects that outlive an operation (thread-local ones: others may not be written at all): another hasher used in between must not matter
	void interference()
	{
		const string prop = "T01";
		if (I.tls.empty()) return;
		auto tlsCells = [&](const Mem &m) { std::map<uint32_t, vector<Cell>> r; for (uint32_t o : I.tls) r[o] = m.get(o).cells; return r; };
		int bad = 0; bool kept = false;
		std::set<long> ks; for (long k : {0L, 1 % B, B / 2, B - 1}) if (d.wanted(k)) ks.insert(k);
		states(ks, [&](const Mem &m, N n0, const string &h, bool f) {
			if (bad > 3) return;
			for (int use = 0; use < 5; ++use)
			{
				const char *how[] = {"constructed", "holding one byte", "holding more than a block", "finalized", "given other bytes in the same buffer"};
				Mem x = m; auto before = tlsCells(m);
				N far = affPlus(n0, 4096);
				{
					ChainOff off(I.chain.on);
					d.ctor(x, d.self2);
					if (use == 1) d.add(x, far, d.c64(1), d.self2);
					if (use == 2 || use == 3) d.add(x, far, d.c64(B + 1), d.self2);
					if (use == 3) { d.fin(x, d.self2); d.arr(x, "h_arr", 0, d.self2); }
					if (use == 4)
					{
						d.setWin(x, n0, affPlus(n0, B)); x.mut(d.msg).base = d.c64((u128)1 << 62);
						d.callv("h_add", {d.V(I.ptrTo(d.self2)), d.V(I.ptrTo(d.msg, n0)), d.V(d.psz(d.c64(B)))}, x); x.mut(d.msg).base = nullptr;
					}
				}
				++rep.count["interleavings"];
				if (tlsCells(x) == before) continue;
				kept = true;
				if (sameFuture(prop, "interference", x, d.self, m, d.self, n0, f, "using a second hasher (" + string(how[use]) + ") in the same thread changes one holding " + h, {0, 1, B})) { ++bad; return; }
			}
		});
		// what an earlier reading of the same object left behind does not show in a later one
		states(ks, [&](const Mem &m, N n0, const string &h, bool f) {
			if (!f || bad > 3 || reach(m, d.self).size() > 1) return;
			Mem x = m; auto before = tlsCells(m);
			auto all = [&](Mem &y, vector<std::pair<string, Bytes>> &r) {
				r.push_back({"the digest", d.arr(y)});
				for (const char *fn : {"h_vec", "h_array", "h_str"}) if (I.has(fn)) r.push_back({string("to") + (fn[2] == 'v' ? "Vector" : fn[2] == 'a' ? "Array" : "String"), text(y, fn)});
				for (const char *fn : {"h_u32", "h_u64", "h_hash"}) if (I.has(fn)) { N v = conv(y, fn); Bytes b; for (unsigned i = 0; i < v->w; i += 8) b.push_back(slice(v, i, 8)); r.push_back({string("conversion ") + (fn + 2), b}); }
			};
			{ ChainOff off(I.chain.on); d.reset(x); d.add(x, affPlus(n0, 4096), d.c64(1)); d.fin(x); vector<std::pair<string, Bytes>> r; all(x, r); }
			if (tlsCells(x) == before) return;
			x.mut(d.self).cells = m.get(d.self).cells;
			vector<std::pair<string, Bytes>> u, v; Mem y = m; all(x, u); all(y, v);
			for (size_t i = 0; i < u.size(); ++i) if (digDiffer(prop, "interference", u[i].second, v[i].second, u[i].first + " of a hasher holding " + h + ", read after another digest was read in the same place")) { ++bad; return; }
			++rep.count["interleavings"];
		});
		if (kept) ++rep.count["thread_local_state_kept"];
	}

	// ---- input overloads (A01)
	void overloads()
	{
		const string prop = "A01";
		int bad = 0;
		auto note = [&](const Mem &a, const Mem &b, N pos, const string &what) {
			++rep.count["overload_cases"];
			if (iso(a, d.self, b, d.self)) { ++rep.count["overload_states_identical"]; return; }
			if (sameFuture(prop, "overload", a, d.self, b, d.self, pos, false, what, {0, 1, B})) ++bad;
		};
		auto call = [&](Mem &m, const string &f, N pos, N bytes, N cnt) {
			d.setWin(m, pos, ::add(pos, bytes));
			if (I.chain.on) for (auto &w : d.words) { const Cell &c = m.get(w.obj).cells[w.off]; if (c.n && c.n->op == Op::Atom && c.n->ak == AK::Chain) I.registerChain(c.n->a[0]); }
			vector<Val> a{d.V(I.ptrTo(d.self)), d.V(I.ptrTo(d.msg, pos))}; if (cnt) a.push_back(d.V(d.psz(cnt)));
			bool dead = false; Val v = I.call(f, a, m, &dead); if (dead) throw DeadCall{f};
			if (v.n && v.n != I.ptrTo(d.self)) { rep.add(prop, "return", f + " does not return the hasher it was called on"); ++bad; }
			d.foldState(m);
		};
		std::set<long> ks; for (long k : {0L, 1 % B, B / 2, B - 1}) if (d.wanted(k)) ks.insert(k);
		vector<long> arrN; { std::stringstream ss(cfg.str("arrn")); string t; while (std::getline(ss, t, ',')) arrN.push_back(std::stol(t)); }
		vector<string> fixed; { std::stringstream ss(cfg.str("fixed")); string t; while (std::getline(ss, t, ',')) fixed.push_back(t); }     // name:bytes
		vector<string> spans; { std::stringstream ss(cfg.str("spans")); string t; while (std::getline(ss, t, ',')) spans.push_back(t); }     // name:elemsize
		for (auto &pt : points(ks))
		{
			long k = pt.k; int z = pt.z;
			for (auto &e : fixed)
			{
				auto c = e.find(':'); string f = e.substr(0, c); long n = std::stol(e.substr(c + 1));
				at(pt, [&](Mem a, N n0) {
					if (bad > 3) return;
					Mem b = a;
					call(a, f, n0, d.c64(n), nullptr); d.add(b, n0, d.c64(n));
					note(a, b, affPlus(n0, n), f + " (" + std::to_string(n) + " bytes) on a hasher holding " + hist(pt, false));
				});
			}
			for (auto &e : spans)
			{
				auto c = e.find(':'); string f = e.substr(0, c); long u = std::stol(e.substr(c + 1));
				std::set<long> rs{0, 1 % d.G, d.G - 1, d.G / 2, (d.G - k) % d.G, (d.G - k + 1) % d.G};
				for (long x : {1L, 2L, 3L}) if (u > 1) rs.insert(((d.G - k) / u + x - 2 + d.G) % d.G);
				if (!quick) for (long r = 0; r < d.G; ++r) rs.insert(r);
				if (conc) { for (long r : rs) at(pt, [&](Mem a, N n0) {
					if (bad > 3) return;
					N cnt = d.c64(r), bytes = d.c64(r * u); Mem b = a;
					call(a, f, n0, bytes, cnt); d.add(b, n0, bytes);
					note(a, b, ::add(n0, bytes), f + " of " + show(cnt, 3) + " elements on a hasher holding " + hist(pt, false));
				}); continue; }
				for (long r : rs) for (bool bg : {false, true})
				{
					Facts ff = z ? d.mk(1, -1, 1, -1, bg) : d.mk(0, 0, 1, -1, bg);
					if (bg) { i128 lim = (d.maxBytes / d.G - 64) / (u + 1); ff.range[d.q->id].hi = lim; Aff g; g.t = {{d.p, -1}, {d.q, -u}}; g.c = d.maxBytes / d.G - 64; ff.ge0.push_back(g); ff.resig(); }
					d.parts(ff, [&] {
						if (bad > 3) return;
						N P = d.cur(d.p), Q = bg ? d.cur(d.q) : d.c64(0), n0 = d.bpos(P, k), cnt = affPlus(mulc(Q, d.G), r), bytes = mulc(cnt, u);
						Mem a = d.inst(k, z, P), b = a;
						call(a, f, n0, bytes, cnt); d.add(b, n0, bytes);
						note(a, b, ::add(n0, bytes), f + " of " + show(cnt, 3) + " elements on a hasher holding " + hist(pt, false));
					});
				}
			}
			// no bytes from a null pointer
			at(pt, [&](Mem a, N n0) {
				if (bad > 3) return;
				Mem b = a; if (cfg.has("tuple")) d.add(b, n0, d.c64(0));
				d.setWin(a, n0, n0); d.callv("h_add", {d.V(I.ptrTo(d.self)), d.V(mkConst(I.pw, 0)), d.V(mkConst(I.pw, 0))}, a); d.foldState(a);
				note(a, b, n0, "adding no bytes through a null pointer to a hasher holding " + hist(pt, false));
			});
		}
	}

	// ---- equality (Q01)
	N boolOf(Mem m, const string &f) { Val v = I.call(f, {d.V(I.ptrTo(d.self)), d.V(I.ptrTo(d.self2))}, m); N n = v.n; if (!n) throw Incomplete{f}; return icmp(Pred::NE, n, mkConst(n->w, 0)); }
	// a second hasher with the same history: same objects, indeterminate cells independent
	Mem twin(const Mem &m, std::map<uint32_t, uint32_t> &id)
	{
		Mem r = m; id[d.self] = d.self2;
		for (uint32_t o : reach(m, d.self)) if (o != d.self) { uint32_t n = r.alloc(OK::Heap, m.get(o).size, m.get(o).name); r.mut(n) = m.get(o); id[o] = n; }
		r.mut(d.self2).cells = m.get(d.self).cells;
		Subst S; S.atom = [&](N a) -> N { if (a->ak == AK::Addr) { auto i = id.find((uint32_t)a->k); if (i != id.end()) return I.ptrTo(i->second); } if (a->ak == AK::Junk) return freshJunk(a->w); return a; };
		for (auto &x : id) for (auto &c : r.mut(x.second).cells) { uint32_t t; if (c.n && !isConst(c.n) && (addrOf(c.n, t) || c.n->junk)) c.n = S(c.n); }
		return r;
	}
	bool cfg_bij() { return cfg.num("bij", 0) && (long)cfg.num("D") > B; }
	bool definitelyTrue(N e) { return isConst(e, 1); }
	bool surelyFalseSomewhere(N e) { return isConst(e, 0) || (!e->junk && !e->undef && (lanesDiffer(e, mkConst(1, 1), 4, d.seed + 77) || directed({{e, false}}, nullptr, nullptr, d.seed + 77))); }
	void equality()
	{
		const string prop = "Q01";
		int bad = 0;
		auto negated = [&](const Mem &m, const string &h) {
			N e = boolOf(m, "h_eq"), n = boolOf(m, "h_ne");
			++rep.count["equality_negation_checks"];
			if (notN(e) == n || e == notN(n)) return;
			if (isConst(e) && isConst(n)) { if (e->k == n->k) { rep.add(prop, "negation", "== and != are not opposites for " + h); ++bad; } return; }
			if (lanesDiffer(notN(e), n, 8, d.seed + 3) || directed({}, notN(e), n, d.seed + 3)) { rep.add(prop, "negation", "== and != are not opposites for " + h); ++bad; }
		};
		auto effects = [&](const Mem &m, const string &h) {
			Mem x = m; Val v = I.call("h_eq", {d.V(I.ptrTo(d.self)), d.V(I.ptrTo(d.self2))}, x);
			if (!iso(x, d.self, m, d.self) || !iso(x, d.self2, m, d.self2)) { rep.add(prop, "const", "comparing hashers holding " + h + " changes one"); ++bad; }
		};
		std::set<string> shapes;
		auto shape = [&](const Mem &m) { string s; for (uint32_t o : reach(m, d.self)) for (auto &c : m.get(o).cells) { if (!c.n) s += 'u'; else if (isConst(c.n)) s += std::to_string((int)Drv::cellByte(c)->k) + ','; else s += c.n->aff ? 'p' : 'd'; } return s; };
		states(sample(), [&](const Mem &m, N, const string &h, bool f) {
			if (bad > 3) return;
			std::map<uint32_t, uint32_t> id; Mem t = twin(m, id);
			N e = boolOf(t, "h_eq"); ++rep.count["equality_same_history"];
			if (!definitelyTrue(e))
			{
				if (I.readsUnset(e)) { rep.add(prop, "equality", "comparing hashers holding " + h + " reads bytes that are never set"); ++bad; return; }
				if (surelyFalseSomewhere(e)) { rep.add(prop, "equality", "two hashers holding the same " + h + " can compare unequal"); ++bad; return; }
				rep.incomplete.push_back("equality of hashers with the same history (" + h + ") is " + show(e, 3)); return;
			}
			negated(t, h); effects(t, h);
			if (!f || !shapes.insert(shape(m)).second) return;
			// which values does equality ignore, and does the digest read them?
			std::map<N, N> by; Mem hv = havoc(m, d.self, by, 0);
			std::map<uint32_t, uint32_t> id2; Mem hm = twin(hv, id2);
			Bytes d1; { Mem x = hm; d1 = d.arr(x); }
			std::set<N> ignored; N worst = nullptr; size_t worstAt = 0;
			for (auto &g : by)
			{
				N nw = mkAtom(AK::Msg, 8, 41, d.c64(havocNo++));
				Mem v = hm; for (auto &x : id2) for (auto &c : v.mut(x.second).cells) if (c.n == g.second) c.n = nw;
				N e2 = boolOf(v, "h_eq"); ++rep.count["equality_values_varied"];
				if (!definitelyTrue(e2)) continue;
				ignored.insert(g.second);
				Mem x = v; Bytes d2 = d.arr(x, "h_arr", 0, d.self2);
				size_t at;
				if (!worst && d.compareBytes(d1, d2, at) == Differ) { worst = g.first; worstAt = at; }
			}
			if (worst)
			{
				// an invertible permutation (bij state bytes): earlier output is determined by a completely compared later state
				long need = cfg.num("bij", 0), run = 0, best = 0;
				if (need) for (auto &x : id) { run = 0; for (auto &c : hv.get(x.first).cells) { if (c.n && c.n->op == Op::Atom && c.n->ak == AK::Msg && !ignored.count(c.n)) best = std::max(best, ++run); else run = 0; } }
				if (!need || best < need) { rep.add(prop, "equality", "equality of finalized hashers (" + h + ") ignores the value " + show(worst, 2) + ", but digest byte " + std::to_string(worstAt) + " depends on it"); ++bad; return; }
				++rep.count["equality_by_invertibility"];
			}
			// a pair with unrelated values
			std::map<N, N> byB; Mem other_ = havoc(m, d.self, byB, 2);
			Mem pr = hm; for (auto &x : id2) for (size_t i = 0; i < pr.get(x.second).cells.size(); ++i) { auto &c = other_.get(x.first).cells[i]; if (c.n && c.n->op == Op::Atom && c.n->ak == AK::Msg && c.n->k == 42) pr.mut(x.second).cells[i] = c; }
			negated(pr, h + " and an unrelated one");
			N e3 = boolOf(pr, "h_eq");
			if (definitelyTrue(e3))
			{
				Mem x = pr; Bytes b1 = d.arr(x); x = pr; Bytes b2 = d.arr(x, "h_arr", 0, d.self2); size_t at;
				if (d.compareBytes(b1, b2, at) == Differ) { rep.add(prop, "equality", "finalized hashers of different messages always compare equal"); ++bad; }
			}
			else if (!isConst(e3) && !e3->junk && !e3->undef && !cfg_bij())
			{
				// some pair of unequal values that the comparison takes for equal
				Mem x = pr; Bytes b1 = d.arr(x); x = pr; Bytes b2 = d.arr(x, "h_arr", 0, d.self2); ++rep.count["equality_collision_searches"];
				for (size_t i = 0; i < b1.size() && i < b2.size(); i += b1.size() > 8 ? 3 : 1)
					if (b1[i] != b2[i] && !b1[i]->junk && !b2[i]->junk && !b1[i]->undef && !b2[i]->undef && directed({{e3, true}}, b1[i], b2[i], d.seed * 3 + i, 4))
					{ rep.add(prop, "equality", "finalized hashers (" + h + ") can compare equal while digest byte " + std::to_string(i) + " differs"); ++bad; break; }
			}
		});
		// other construction parameters
		if (I.has("h_ctor2"))
			for (long n : {0L, 1L, B, 2 * B + 3}) for (int f : {0, 1})
				d.parts(d.mk(0, 0), [&] {
					ChainOff off(I.chain.on);
					Mem m = d.zero; d.ctor(m, d.self); d.ctor(m, d.self2, "h_ctor2");
					if (n) { d.add(m, d.c64(0), d.c64(n), d.self); d.add(m, d.c64(0), d.c64(n), d.self2); }
					if (!f) { negated(m, "differently parameterised hashers"); return; }
					d.fin(m, d.self); d.fin(m, d.self2);
					N e = boolOf(m, "h_eq"); ++rep.count["equality_parameter_pairs"];
					negated(m, "differently parameterised hashers");
					if (!definitelyTrue(e)) return;
					Mem x = m; Bytes a = text(x, "h_vec", d.self); x = m; Bytes b = text(x, "h_vec", d.self2);
					size_t at; if (a.size() != b.size() || d.compareBytes(a, b, at) == Differ) rep.add(prop, "equality", "finalized hashers constructed with different parameters compare equal after the same " + std::to_string(n) + " bytes but give different digests (" + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " bytes)");
				});
	}
};
