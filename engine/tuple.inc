// TupleHash: the calls it makes on the hash it wraps (recorded by rec_* functions), and whole digests of tuples of given shapes.
struct Tuple
{
	Drv &d; Interp &I; Report &rep;
	Tuple(Drv &x) : d(x), I(x.I), rep(x.rep) {}
	struct Item { N byte = nullptr; N ptr = nullptr, len = nullptr; };   // one byte, or a range of the input
	// the recorded stream, adjacent ranges joined
	vector<Item> stream(size_t from, vector<string> &other)
	{
		vector<Item> r;
		for (size_t i = from; i < I.recLog.size(); ++i)
		{
			auto &e = I.recLog[i];
			if (e.kind != "rec_add") { other.push_back(e.kind); continue; }
			if (!other.empty()) other.push_back("rec_add");
			if (isConst(e.len, 0)) continue;
			if (e.input)
			{
				if (!r.empty() && r.back().ptr && ::add(r.back().ptr, r.back().len) == e.ptr) r.back().len = ::add(r.back().len, e.len);
				else { Item x; x.ptr = e.ptr; x.len = e.len; r.push_back(x); }
			}
			else for (N b : e.bytes) { Item x; x.byte = b; r.push_back(x); }
		}
		return r;
	}
	string text(const vector<Item> &s) { string t; for (auto &x : s) t += (t.empty() ? "" : ", ") + (x.byte ? show(x.byte, 2) : "input[" + show(x.ptr, 2) + ", +" + show(x.len, 2) + ")"); return t.empty() ? "nothing" : t; }
	bool agree(const string &prop, const vector<Item> &got, const vector<Item> &want, const string &what)
	{
		++rep.count["recorded_streams_compared"];
		if (got.size() == want.size())
		{
			bool ok = true; Bytes a, b;
			for (size_t i = 0; i < got.size(); ++i)
			{
				if (!got[i].byte != !want[i].byte) { ok = false; break; }
				if (got[i].byte) { a.push_back(got[i].byte); b.push_back(want[i].byte); }
				else if (got[i].ptr != want[i].ptr || got[i].len != want[i].len) ok = false;
			}
			size_t at;
			if (ok) { Cmp c = d.compareBytes(a, b, at); if (c == Same || c == Random) return true; if (c == Unknown) { rep.incomplete.push_back(what + ": not comparable"); return true; } }
		}
		rep.add(prop, "encoding", what + " passes on " + text(got) + " instead of " + text(want));
		return false;
	}
	static vector<Item> item(N b) { Item x; x.byte = b; return {x}; }
	void put(vector<Item> &s, N b) { Item x; x.byte = b; s.push_back(x); }
	// big-endian bytes of the w-bit value v, n of them
	void be(vector<Item> &s, N v, unsigned n) { for (unsigned i = n; i-- > 0;) put(s, slice(v, 8 * i, 8)); }
	void others(const string &prop, const vector<string> &o, const vector<string> &want, const string &what)
	{
		if (o == want) return;
		string t; for (auto &x : o) t += " " + x.substr(4);
		rep.add(prop, "calls", what + " makes these further calls on the wrapped hash:" + (t.empty() ? " none" : t));
	}
	Facts range(N v, i128 lo, i128 hi) { Facts f = d.mk(0, 0); f.range[v->id] = {lo, hi}; f.resig(); return f; }
	void recorded(const string &prop)
	{
		struct MO { bool &b, o; MO(bool &x) : b(x), o(x) { b = false; } ~MO() { b = o; } } mo(I.memoOn);
		// construction
		d.parts(d.mk(0, 0), [&] {
			I.recLog.clear(); Mem m = d.zero; d.callv("h_ctor", {d.V(I.ptrTo(d.self)), d.V(mkConst(32, 32)), d.V(I.ptrTo(d.key)), d.V(d.c64(5))}, m); d.keyOpen(m, false);
			if (I.recLog.size() != 1 || I.recLog[0].kind != "rec_ctor") throw Incomplete{"construction of the wrapped hash is not a single call"};
			const string name = "TupleHash"; auto &e = I.recLog[0]; Bytes want;
			for (char c : name) want.push_back(mkConst(8, (uint8_t)c));
			++rep.count["recorded_streams_compared"];
			if (e.args[0] != mkConst(32, 32)) rep.add(prop, "encoding", "the wrapped hash is constructed with digest length " + show(e.args[0], 2) + " instead of the given one");
			if (e.bytes != want) { string t; for (N b : e.bytes) t += isConst(b) ? (char)b->k : '?'; rep.add(prop, "encoding", "the wrapped hash is constructed with function name \"" + t + "\" instead of \"TupleHash\""); }
			Bytes cust; for (int i = 0; i < 5; ++i) cust.push_back(mkAtom(AK::Msg, 8, 1, d.c64(i)));
			if (e.bytes2 != cust) rep.add(prop, "encoding", "the wrapped hash is not constructed with the given customization string");
		});
		N n = mkVar("n");
		// elements: n bytes with 8n needing j bytes
		for (unsigned fn = 0; fn < elems.size(); ++fn)
		for (int j = 0; j <= 7; ++j)
		{
			auto &el = elems[fn];
			i128 lo = j <= 1 ? (j == 0 ? 0 : 1) : (i128)1 << (8 * (j - 1) - 3), hi = j == 0 ? 0 : ((i128)1 << (8 * j - 3)) - 1;
			if (j == 7) hi = (i128)1 << 50;
			lo = (lo + el.size - 1) / el.size; hi = hi / el.size; if (lo > hi) continue;
			if (el.count >= 0) { if (el.count < lo || el.count > hi) continue; lo = hi = el.count; }
			d.parts(range(n, lo, hi), [&] {
				N cnt = d.cur(n), L = mulc(cnt, el.size);
				Mem m = d.zero; I.recLog.clear();
				d.callv("h_ctor", {d.V(I.ptrTo(d.self)), d.V(mkConst(32, 32)), d.V(I.ptrTo(d.key)), d.V(d.c64(5))}, m); d.keyOpen(m, false);
				size_t from = I.recLog.size();
				N P = d.c64(77); d.setWin(m, P, ::add(P, L));
				vector<Val> a{d.V(I.ptrTo(d.self)), d.V(I.ptrTo(d.msg, P))}; if (el.count < 0) a.push_back(d.V(d.psz(cnt)));
				d.callv(el.fn, a, m);
				vector<string> o; vector<Item> got = stream(from, o), want;
				N bits = mulc(L, 8);
				put(want, mkConst(8, std::max(1, j))); be(want, bits, std::max(1, j));
				if (!isConst(L, 0)) { Item x; x.ptr = I.ptrTo(d.msg, P); x.len = L; want.push_back(x); }
				string what = el.fn + " of " + (isConst(cnt) ? std::to_string((long long)cnt->k) : std::to_string((long long)lo) + " to " + std::to_string((long long)hi)) + " elements";
				agree(el.prop.empty() ? prop : el.prop, got, want, what); others(prop, o, {}, what);
			});
		}
		// finalize: digest length L with 8L needing j bytes; reset before it makes no difference
		for (int j = 1; j <= 5; ++j) for (int r = 0; r < 2; ++r)
		{
			i128 lo = j == 1 ? 1 : (i128)1 << (8 * (j - 1) - 3), hi = std::min<i128>(((i128)1 << (8 * j - 3)) - 1, 0x7fffffff);
			if (lo > hi) continue;
			d.parts(range(n, lo, hi), [&] {
				N L = d.cur(n);
				Mem m = d.zero; I.recLog.clear();
				d.callv("h_ctor", {d.V(I.ptrTo(d.self)), d.V(trunc(L, 32)), d.V(I.ptrTo(d.key)), d.V(d.c64(0))}, m); d.keyOpen(m, false);
				size_t from = I.recLog.size();
				if (r)
				{
					d.callv("h_reset", {d.V(I.ptrTo(d.self))}, m);
					vector<string> o; vector<Item> got = stream(from, o);
					agree("R01", got, {}, "reset"); others("R01", o, {"rec_reset"}, "reset"); from = I.recLog.size();
				}
				d.callv("h_fin", {d.V(I.ptrTo(d.self))}, m);
				vector<string> o; vector<Item> got = stream(from, o), want;
				be(want, mulc(L, 8), j); put(want, mkConst(8, j));
				string what = "finalize with a digest length of " + (isConst(L) ? std::to_string((long long)L->k) : std::to_string((long long)lo) + " to " + std::to_string((long long)hi)) + " bytes";
				agree(prop, got, want, what); others(prop, o, {"rec_finalize"}, what);
			});
		}
	}
	struct Elem { string fn; long size; long count; string prop; };
	vector<Elem> elems;
	void shapes(const string &prop, long n)
	{
		struct Off { bool &b, o; Off(bool &x) : b(x), o(x) { b = false; } ~Off() { b = o; } } off(I.chain.on);
		std::stringstream ss(d.cfg.str("totals")); string t;
		for (long i = 0; i < n; ++i)
		{
			std::getline(ss, t, ','); long total = std::stol(t);
			d.parts(d.mk(0, 0), [&] {
				Mem m = d.zero; d.ctor(m, d.self);
				d.setWin(m, d.c64(0), d.c64(total));
				d.callv("h_hist_" + std::to_string(i), {d.V(I.ptrTo(d.self)), d.V(I.ptrTo(d.msg))}, m); d.fin(m);
				Bytes got = d.arr(m), want;
				Mem y = d.zero; d.setWin(y, d.c64(0), d.c64(total));
				d.callv("s_hist_" + std::to_string(i), {d.V(I.ptrTo(d.key)), d.V(I.ptrTo(d.msg)), d.V(I.ptrTo(d.out))}, y);
				for (size_t k = 0; k < got.size(); ++k) { const Cell &c = y.get(d.out).cells[k]; if (!c.n) throw Incomplete{"reference leaves digest bytes unset"}; want.push_back(slice(c.n, c.sig * 8, 8)); }
				size_t at; Cmp c = d.compareBytes(got, want, at);
				rep.count[c == Same ? "tuple_digest_bytes_identical" : "tuple_digest_bytes_by_random_interpretation"] += got.size();
				string what = "tuple of shape " + std::to_string(i) + " (" + std::to_string(total) + " bytes in all)";
				if (c == Differ) rep.add(prop, "digest", what + ": digest byte " + std::to_string(at) + " is " + show(got[at], 3) + " instead of " + show(want[at], 3));
				if (c == Unknown) rep.incomplete.push_back(what + ": digests not comparable");
			});
		}
	}
};
