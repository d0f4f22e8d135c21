// Scenarios for when_all and when_any (W01, W02).
#include "common.h"
#include <atomic>
#include <list>

namespace
{
	using namespace librf;
	struct World; World* gw = nullptr;

	struct Tracked
	{
		unsigned magic = 0x600DF00D;
		Tracked(); Tracked(const Tracked& o); Tracked& operator=(const Tracked& o) { touch(); o.touch(); return *this; } ~Tracked();
		void touch() const { if (magic != 0x600DF00D) sim::fault("destroyed-object-used"); }
	};
	struct Big
	{
		std::string s; Tracked tr;
		Big() {}
		explicit Big(int v) : s("a string that does not fit into the object " + std::to_string(v)) {}
	};
	struct MoveOnly
	{
		std::unique_ptr<int> p; Tracked tr;
		MoveOnly() {}
		explicit MoveOnly(int v) : p(new int(v)) {}
		MoveOnly(MoveOnly&& o) : p(std::move(o.p)) { o.tr.touch(); }
		MoveOnly& operator=(MoveOnly&& o) { tr.touch(); o.tr.touch(); p = std::move(o.p); return *this; }
	};
	template<class T> T make(int v)
	{
		if constexpr (std::is_same_v<T, bool>) return v == 2;
		else return T(v);
	}
	int decode(int r) { return r; }
	int decode(const Big& r) { static const char P[] = "a string that does not fit into the object "; r.tr.touch(); return r.s.compare(0, sizeof P - 1, P) == 0 ? atoi(r.s.c_str() + sizeof P - 1) : -998; }
	int decode(const MoveOnly& r) { r.tr.touch(); return r.p ? *r.p : -998; }
	int decode(bool r) { return r ? 2 : 1; }
	int decode(std::remove_const_t<decltype(std::ignore)>) { return 1; }

	struct Aw { int type = 0; std::atomic<int> claimed{ 0 }; virtual ~Aw() {} virtual void set(int v) = 0; };
	template<class T> struct AwT : Aw
	{
		awaitable_t<T> aw; future_t<T> fut;
		AwT() : fut(aw.get_future()) {}
		void set(int v) override { awaitable_t<T> a = std::move(aw); if constexpr (std::is_void_v<T>) a.set_value(); else a.set_value(make<T>(v)); }
	};
	struct SOp { char o; int x = 0, y = 0, how = 0; };
	struct Strand { int kind = 0; int a = 0, w = 0, i = 0, type = 0, val = 1, how = 0; std::vector<SOp> body; };	// kind 0 root 1 fut 2 co
	struct WOp { int kind = 0, v = 0, s = 0, form = 0; std::vector<int> it; };
	struct World
	{
		int ns = 1, np = 1;
		std::vector<scheduler_t*> sch;
		std::vector<std::unique_ptr<Aw>> aw;
		std::vector<Strand> str;
		std::vector<WOp> op;
		std::vector<int> proc;
		std::atomic<int> objs{ 0 };
		int me() { int s = sim::self(); return s == 0 ? ns + np : proc[s]; }
	};
	Tracked::Tracked() { ++gw->objs; }
	Tracked::Tracked(const Tracked& o) { o.touch(); ++gw->objs; }
	Tracked::~Tracked() { touch(); magic = 0xDEADDEAD; --gw->objs; }

	void set(int a, int v)
	{
		World* w = gw;
		Aw& A = *w->aw[a - 1];
		if (A.claimed.exchange(1)) return;
		int p = w->me();
		if (A.type == 0) v = 1;
		if (A.type == 3) v = 1 + v % 2;
		sim::ev("\"C\",%d,%d,%d", p, a, v);
		A.set(v);
		sim::ev("\"R\",%d", p);
	}

	// result lists
	template<class Tup, size_t... I> void tup(std::vector<int>& out, Tup& t, std::index_sequence<I...>) { (out.push_back(decode(std::get<I>(t))), ...); }
	template<class... T> std::vector<int> res(const std::tuple<T...>& t) { std::vector<int> r; tup(r, t, std::index_sequence_for<T...>()); return r; }
	template<class T> std::vector<int> res(const std::vector<T>& t) { std::vector<int> r; for (size_t i = 0; i < t.size(); ++i) r.push_back(decode(t[i])); return r; }
	std::vector<int> res(const std::vector<bool>& t) { std::vector<int> r; for (size_t i = 0; i < t.size(); ++i) r.push_back(decode((bool)t[i])); return r; }
	std::vector<int> res_any(int wn, const when_any_pair& p)
	{
		World* w = gw;
		std::vector<int> r{ (int)p.first + 1 };
		const any_t& a = p.second;
		if (p.first < 0 || p.first >= (int)w->op[wn - 1].it.size()) { r.push_back(a.has_value() ? -997 : 0); return r; }
		if (!a.has_value()) r.push_back(1);
		else if (a.type() == typeid(int)) r.push_back(any_cast<int>(a));
		else if (a.type() == typeid(bool)) r.push_back(decode(any_cast<bool>(a)));
		else if (a.type() == typeid(Big)) r.push_back(decode(any_cast<const Big&>(a)));
		else r.push_back(-996);
		int ty = w->str[w->op[wn - 1].it[p.first] - 1].type;
		bool ok = ty == 0 ? !a.has_value() : ty == 1 ? a.type() == typeid(int) : ty == 2 ? a.type() == typeid(Big) : a.type() == typeid(bool);
		if (!ok) r.back() = -995;
		return r;
	}

	// one strand's body; R receives the decoded result of when operations
#define STRAND_BODY(K) \
	World* w = gw; const int k_ = (K); \
	sim::ev("\"S\",%d,%d", k_, w->me()); \
	for (const SOp& o : w->str[k_ - 1].body) \
	{ \
		switch (o.o) \
		{ \
		case 'y': sim::ev("\"y\",%d,0", k_); co_await yield(); sim::ev("\"S\",%d,%d", k_, w->me()); break; \
		case 'v': sim::ev("\"v\",%d,%d", k_, o.x); co_await via(w->sch[o.x - 1]); sim::ev("\"S\",%d,%d", k_, w->me()); break; \
		case 'a': sim::ev("\"a\",%d,%d", k_, o.x); \
			switch (w->aw[o.x - 1]->type) \
			{ \
			case 0: co_await static_cast<AwT<void>*>(w->aw[o.x - 1].get())->fut; break; \
			case 1: co_await static_cast<AwT<int>*>(w->aw[o.x - 1].get())->fut; break; \
			case 2: co_await static_cast<AwT<Big>*>(w->aw[o.x - 1].get())->fut; break; \
			case 3: co_await static_cast<AwT<bool>*>(w->aw[o.x - 1].get())->fut; break; \
			} \
			sim::ev("\"S\",%d,%d", k_, w->me()); break; \
		case 's': set(o.x, o.y); break; \
		case 'W': \
		{ \
			const WOp& W = w->op[o.x - 1]; \
			scheduler_t* sc_ = W.s ? w->sch[W.s - 1] : w->sch[w->me() - 1]; \
			sim::ev("\"W\",%d,%d", k_, o.x); \
			std::vector<int> r_; \
			WHEN_BODY(o.x, W, sc_, r_) \
			sim::ev("\"V\",%d,%d,%d,%s", k_, w->me(), o.x, js(r_).c_str()); \
			break; \
		} \
		} \
	}

	// the items of an operation
	template<class T> future_t<T> frame(int k, Tracked param);
	template<class T> future_t<T> item(int k)
	{
		Strand& S = gw->str[k - 1];
		if (S.kind == 1) return static_cast<AwT<T>*>(gw->aw[S.a - 1].get())->fut;
		return frame<T>(k, Tracked());
	}
	template<class T> struct Call
	{	// a callable that returns a future
		int k; Tracked cap;
		explicit Call(int k_) : k(k_) {}
		future_t<T> operator()();
		future_t<T> run();
	};

	// forms: variadic 0.. by pattern of types; ranges by type
	// variadic patterns: I int, B Big, V void, L bool, M move-only; upper case future, lower case callable
	// each used as  FORM(number, expression list)
#define ITEM(T, n) item<T>(W.it[n])
#define CALL(T, n) Call<T>(W.it[n])
#define ALLANY(...) \
	if (W.kind == 0) { if (W.v) r_ = res(co_await when_all(__VA_ARGS__)); else r_ = res(co_await when_all(*sc_, __VA_ARGS__)); } \
	else { if (W.v) r_ = res_any(wn_, co_await when_any(__VA_ARGS__)); else r_ = res_any(wn_, co_await when_any(*sc_, __VA_ARGS__)); }
#define ALLONLY(...) { if (W.v) r_ = res(co_await when_all(__VA_ARGS__)); else r_ = res(co_await when_all(*sc_, __VA_ARGS__)); }
#define RANGE_AA(V) \
	{ auto& v_ = V; \
		if (W.kind == 0) \
		{ \
			switch (W.form % 2) { \
			case 0: if (W.v) r_ = res(co_await when_all(v_.begin(), v_.end())); else r_ = res(co_await when_all(*sc_, v_.begin(), v_.end())); break; \
			case 1: if (W.v) r_ = res(co_await when_all(v_)); else r_ = res(co_await when_all(*sc_, v_)); break; } \
		} \
		else \
		{ \
			switch (W.form % 2) { \
			case 0: if (W.v) r_ = res_any(wn_, co_await when_any(v_.begin(), v_.end())); else r_ = res_any(wn_, co_await when_any(*sc_, v_.begin(), v_.end())); break; \
			case 1: if (W.v) r_ = res_any(wn_, co_await when_any(v_)); else r_ = res_any(wn_, co_await when_any(*sc_, v_)); break; } \
		} }
#define RANGE_ALL(V) \
	{ auto& v_ = V; \
		switch (W.form % 2) { \
		case 0: if (W.v) r_ = res(co_await when_all(v_.begin(), v_.end())); else r_ = res(co_await when_all(*sc_, v_.begin(), v_.end())); break; \
		case 1: if (W.v) r_ = res(co_await when_all(v_)); else r_ = res(co_await when_all(*sc_, v_)); break; } }
	template<class T> std::vector<future_t<T>> futs(const WOp& W) { std::vector<future_t<T>> v; for (int k : W.it) v.push_back(item<T>(k)); return v; }
	template<class T> std::vector<Call<T>> calls(const WOp& W) { std::vector<Call<T>> v; for (int k : W.it) v.push_back(Call<T>(k)); return v; }
	template<class T> std::vector<std::function<future_t<T>()>> fns(const WOp& W) { std::vector<std::function<future_t<T>()>> v; for (int k : W.it) v.push_back(Call<T>(k)); return v; }

	// number of variadic patterns and their types
	const char* const PAT[] = { "", "I", "V", "b", "IB", "Vi", "LIm", "BvL", "IIb", "vIBl", "iLVM" };
	const int NPAT = 11;
	// ranges: type and kind (f futures, c callables, F std::function)
	struct Rg { int type; char kind; };
	const Rg RG[] = { { 1, 'f' }, { 0, 'f' }, { 2, 'f' }, { 3, 'f' }, { 4, 'f' }, { 1, 'c' }, { 2, 'F' }, { 0, 'c' }, { 3, 'F' } };
	const int NRG = 9;

#define WHEN_BODY(WN, W, SC, R) \
	const int wn_ = WN; (void)wn_; \
	if (W.form < 100) switch (W.form) \
	{ \
	case 0: if (W.kind == 0) { if (W.v) r_ = res(co_await when_all()); else r_ = res(co_await when_all(*sc_)); } \
		else { if (W.v) r_ = res_any(wn_, co_await when_any()); else r_ = res_any(wn_, co_await when_any(*sc_)); } break; \
	case 1: ALLANY(ITEM(int, 0)) break; \
	case 2: ALLANY(ITEM(void, 0)) break; \
	case 3: ALLANY(CALL(Big, 0)) break; \
	case 4: ALLANY(ITEM(int, 0), ITEM(Big, 1)) break; \
	case 5: ALLANY(ITEM(void, 0), CALL(int, 1)) break; \
	case 6: ALLONLY(ITEM(bool, 0), ITEM(int, 1), CALL(MoveOnly, 2)) break; \
	case 7: { auto f0 = ITEM(Big, 0); Call<void> c1 = CALL(void, 1); auto f2 = ITEM(bool, 2); ALLANY(f0, c1, f2) break; } \
	case 8: ALLANY(ITEM(int, 0), ITEM(int, 1), CALL(Big, 2)) break; \
	case 9: ALLANY(CALL(void, 0), ITEM(int, 1), ITEM(Big, 2), CALL(bool, 3)) break; \
	case 10: ALLONLY(CALL(int, 0), ITEM(bool, 1), ITEM(void, 2), ITEM(MoveOnly, 3)) break; \
	} \
	else switch ((W.form - 100) / 2) \
	{ \
	case 0: { auto v = futs<int>(W); RANGE_AA(v) break; } \
	case 1: { auto v = futs<void>(W); RANGE_AA(v) break; } \
	case 2: { auto v = futs<Big>(W); RANGE_AA(v) break; } \
	case 3: { auto v = futs<bool>(W); RANGE_AA(v) break; } \
	case 4: { auto v = futs<MoveOnly>(W); RANGE_ALL(v) break; } \
	case 5: { auto v = calls<int>(W); RANGE_AA(v) break; } \
	case 6: { auto v = fns<Big>(W); RANGE_AA(v) break; } \
	case 7: { auto v = calls<void>(W); RANGE_AA(v) break; } \
	case 8: { auto v = fns<bool>(W); RANGE_AA(v) break; } \
	}

	template<class T> future_t<T> frame(int k, Tracked param)
	{
		Tracked local;
		STRAND_BODY(k)
		param.touch(); local.touch();
		int v = w->str[k - 1].val;
		sim::ev("\"D\",%d,%d", k, v);
		if constexpr (std::is_void_v<T>) co_return; else co_return make<T>(v);
	}
	template<class T> future_t<T> Call<T>::run()
	{
		Tracked local;
		STRAND_BODY(k)
		cap.touch(); local.touch();
		int v = w->str[k - 1].val;
		sim::ev("\"D\",%d,%d", k, v);
		if constexpr (std::is_void_v<T>) co_return; else co_return make<T>(v);
	}
	template<class T> future_t<T> Call<T>::operator()()
	{
		cap.touch();
		if (gw->str[k - 1].kind == 1 || gw->str[k - 1].how == 0) return item<T>(k);
		return run();
	}
	struct Root { Call<void> c; explicit Root(int k) : c(k) {} future_t<void> operator()() { return c.run(); } };
}

void scenario_main(const char* family)
{
	const bool wide = strstr(family, "_wide") != nullptr, race = strstr(family, "_race") != nullptr;	// race: items end in different threads
	long before = sim::live_blocks();
	{
		World W; World* w = gw = &W;
		if (wide) sim::plain_strategy();
		w->ns = wide ? 1 : race ? 2 + sim::rnd(2) : 1 + sim::rnd(2);
		int plainThreads = wide || race ? 0 : sim::rnd(3);
		w->np = plainThreads + 1;
		auto val = [](int ty) { return ty == 0 ? 1 : ty == 3 ? 1 + (int)sim::rnd(2) : 2 + (int)sim::rnd(900); };
		int limit = wide ? 40 : 9;
		auto newAw = [&](int ty) {
			std::unique_ptr<Aw> A;
			switch (ty) { case 0: A.reset(new AwT<void>); break; case 1: A.reset(new AwT<int>); break; case 2: A.reset(new AwT<Big>); break; case 3: A.reset(new AwT<bool>); break; default: A.reset(new AwT<MoveOnly>); }
			A->type = ty;
			w->aw.push_back(std::move(A));
			return (int)w->aw.size();
		};
		std::function<void(int, int)> body;
		auto newOp = [&](int by, int depth) {
			(void)by;
			w->op.push_back({});
			int n = (int)w->op.size();
			WOp o;
			o.kind = sim::rnd(2); o.v = sim::rnd(2);
			if (!o.v && sim::chance(1, 3)) o.s = 1 + sim::rnd(w->ns);
			std::vector<int> types;
			std::vector<bool> callable;
			if (sim::chance(1, 2))
			{
				do o.form = sim::rnd(NPAT); while (o.kind == 1 && (o.form == 6 || o.form == 10));
				for (const char* c = PAT[o.form]; *c; ++c) { types.push_back(std::string("VIBLM").find((char)toupper(*c))); callable.push_back(islower(*c)); }
			}
			else
			{
				int r; do r = sim::rnd(NRG); while (o.kind == 1 && RG[r].type == 4);
				o.form = 100 + 2 * r + sim::rnd(2);
				int cnt = wide ? sim::rnd(8) : race ? 2 + sim::rnd(3) : sim::rnd(4);
				for (int i = 0; i < cnt; ++i) { types.push_back(RG[r].type); callable.push_back(RG[r].kind != 'f'); }
			}
			std::vector<int> made;
			for (size_t i = 0; i < types.size(); ++i)
			{
				w->str.push_back({});
				int k = (int)w->str.size();
				Strand S;
				S.kind = (int)w->str.size() >= limit || sim::chance(1, race ? 12 : 2) ? 1 : 2;
				S.w = n; S.i = (int)i + 1; S.type = types[i]; S.how = sim::rnd(3);
				if (S.kind == 1) S.a = newAw(S.type); else S.val = val(S.type);
				w->str[k - 1] = S;
				made.push_back(k);
			}
			o.it = made;
			w->op[n - 1] = o;
			for (int k : made) if (w->str[k - 1].kind == 2) body(k, depth + 1);
			return n;
		};
		body = [&](int k, int depth) {
			std::vector<SOp> v;
			int n = depth == 0 ? 1 + sim::rnd(3) : sim::rnd(3);
			bool when = false;
			if (race)
			{
				if (depth) { if (sim::chance(1, 4)) v.push_back({ 'y' }); if (sim::chance(5, 6)) v.push_back({ 'v', 1 + (int)sim::rnd(w->ns) }); }
				n = depth == 0 && sim::chance(1, 5);
			}
			for (int i = 0; i < n; ++i)
			{
				int c = sim::rnd(100);
				if (c < 25) v.push_back({ 'y' });
				else if (c < 35) v.push_back({ 'v', 1 + (int)sim::rnd(w->ns) });
				else if (c < 45) v.push_back({ 'a', newAw(sim::rnd(4)) });
				else if (c < 60) v.push_back({ 's', 1 + (int)sim::rnd(12), 2 + (int)sim::rnd(900) });
				else if (depth < 2 && (int)w->str.size() < limit && (depth == 0 || sim::chance(1, 3))) { v.push_back({ 'W', newOp(k, depth) }); when = true; }
			}
			if (depth == 0 && !when) v.push_back({ 'W', newOp(k, 0) });
			w->str[k - 1].body = v;
		};
		std::vector<int> roots;
		int nroots = wide ? 1 + sim::rnd(4) : race ? 1 : 1 + sim::rnd(2);
		for (int i = 0; i < nroots; ++i)
		{
			w->str.push_back({});
			int k = (int)w->str.size();
			roots.push_back(k);
			body(k, 0);
		}
		int na = (int)w->aw.size();
		for (auto& S : w->str) { std::vector<SOp> v; for (auto& o : S.body) if (o.o != 's' || o.x <= na) v.push_back(o); S.body = v; }
		std::string js1, js2;
		for (auto& S : w->str)
		{
			char b[200]; static const char* K[] = { "root", "fut", "co" };
			snprintf(b, sizeof b, "%s{\"k\":\"%s\",\"a\":%d,\"w\":%d,\"i\":%d}", js1.empty() ? "" : ",", K[S.kind], S.a, S.w, S.i);
			js1 += b;
		}
		for (auto& O : w->op)
		{
			char b[200];
			snprintf(b, sizeof b, "%s{\"k\":\"%s\",\"v\":%d,\"s\":%d,\"it\":", js2.empty() ? "" : ",", O.kind ? "any" : "all", O.v, O.s);
			js2 += b; js2 += js(O.it) + "}";
		}
		sim::cfg("\"ns\":%d,\"np\":%d,\"na\":%d,\"str\":[%s],\"op\":[%s]", w->ns, w->np, na, js1.c_str(), js2.c_str());
		{ std::string f; for (auto& O : w->op) f += std::to_string(O.form) + " "; sim::note("\"forms\":\"%s\"", f.c_str()); }
		std::vector<std::vector<std::pair<int, int>>> ps(plainThreads);
		for (auto& v : ps) { int n = na ? sim::rnd(5) : 0; for (int i = 0; i < n; ++i) v.push_back({ 1 + (int)sim::rnd(na), 2 + (int)sim::rnd(900) }); }
		std::vector<std::vector<int>> hs(w->ns);
		for (int k : roots) hs[sim::rnd(w->ns)].push_back(k);
		w->proc.assign(64, 0);
		w->sch.assign(w->ns, nullptr);
		struct Ctl { std::atomic<bool> begin{ false }, quit{ false }; } ctl;
		for (int h = 0; h < w->ns; ++h)
			w->proc[sim::spawn([w, h, &ctl, &hs] {
				local_scheduler_t ls;
				w->sch[h] = this_scheduler();
				while (!ctl.begin) sim::poll([](void* c) { return static_cast<Ctl*>(c)->begin.load(); }, &ctl);
				for (int k : hs[h])
				{
					sim::ev("\"G\",%d,%d", k, h + 1);
					switch (w->str[k - 1].how) { case 0: *w->sch[h] + frame<void>(k, Tracked()); break; default: *w->sch[h] + Root(k); }
					sim::ev("\"H\",%d", k);
				}
				while (!ctl.quit) sim::poll(host_poll_fn, w->sch[h]);
			})] = h + 1;
		sim::run_until_quiescent();
		for (int i = 0; i < plainThreads; ++i)
			w->proc[sim::spawn([i, &ps] { for (auto& x : ps[i]) set(x.first, x.second); })] = w->ns + 1 + i;
		ctl.begin = true;
		sim::wake_all();
		int next = 1, rounds = 0;
		for (;;)
		{
			sim::run_until_quiescent();
			if (sim::deadlocked()) sim::fault("deadlock");
			sim::ev("\"Q\"");
			if (next > na) break;
			// the awaitables that are still open, one or all
			std::vector<std::pair<int, int>> todo;
			bool all = sim::chance(1, 3) || ++rounds > 8;
			for (bool first = true; next <= na && (first || all); ++next) if (!w->aw[next - 1]->claimed) { todo.push_back({ next, 2 + (int)sim::rnd(900) }); first = false; }
			if (todo.empty()) break;
			for (size_t i = todo.size() - 1; i > 0; --i) std::swap(todo[i], todo[sim::rnd((uint32_t)i + 1)]);
			w->proc[sim::spawn([todo] { for (auto& x : todo) set(x.first, x.second); })] = w->ns + w->np;
			sim::wake_all();
		}
		sim::ev("\"Z\"");
		ctl.quit = true;
		sim::wake_all();
		sim::run_until_quiescent();
		if (!sim::all_done()) sim::fault("host-stuck");
		w->aw.clear();
		if (w->objs != 0) sim::fault("object-kept");
		gw = nullptr;
	}
	if (sim::live_blocks() != before) sim::fault("leak");
}
