// Scenarios for generator_t (G01).
#include "common.h"
#include <atomic>
#include <optional>

namespace
{
	using namespace librf;
	struct World; World* gw = nullptr;

	struct Tracked
	{	// kind 0: not reported; 'L' a local object of body g, 'P' a parameter of its frame
		unsigned magic = 0x600DF00D; char kind = 0; int g = 0;
		Tracked(); Tracked(char k, int g_); Tracked(const Tracked& o); Tracked(Tracked&& o); ~Tracked();
		Tracked& operator=(const Tracked& o) { touch(); o.touch(); return *this; }
		void touch() const { if (magic != 0x600DF00D) sim::fault("destroyed-object-used"); }
	};
	struct Big
	{
		std::string s; Tracked tr;
		Big() {}
		explicit Big(int v) : s("a string that does not fit into the object " + std::to_string(v)) {}
	};
	struct MoveOnly
	{
		std::unique_ptr<int> p; Tracked tr;
		MoveOnly() {}
		explicit MoveOnly(int v) : p(new int(v)) {}
		MoveOnly(MoveOnly&& o) : p(std::move(o.p)) { o.tr.touch(); }
		MoveOnly& operator=(MoveOnly&& o) { tr.touch(); o.tr.touch(); p = std::move(o.p); return *this; }
	};
	using Nil = std::nullptr_t;
	template<class T> T make(int v) { if constexpr (std::is_same_v<T, Nil>) return nullptr; else return T(v); }
	int decode(const int& r) { return r; }
	int decode(const Nil&) { return 1; }
	int decode(const Big& r) { static const char P[] = "a string that does not fit into the object "; r.tr.touch(); return r.s.compare(0, sizeof P - 1, P) == 0 ? atoi(r.s.c_str() + sizeof P - 1) : -998; }
	int decode(const MoveOnly& r) { r.tr.touch(); return r.p ? *r.p : -998; }

	struct BOp { char o; int g = 0, var = 0, cnt = 0; };		// m: a generator g in variable var, of which cnt values are taken
	struct GenD { bool co = false; int type = 0, how = 0; std::vector<int> y; int r = 0; std::vector<std::vector<BOp>> seg; };
	struct POp { char o; int x = 0, y = 0, how = 0; };			// k: make, v: move, r: reset, b: begin, +: next, g: start, c: start a callable, y: next batch
	struct VarB { virtual ~VarB() {} };
	template<class T> struct VarT : VarB
	{
		std::optional<generator_t<T>> g; std::optional<typename generator_t<T>::iterator> it;
	};
	struct World
	{
		int ns = 1, np = 1, nv = 0;
		std::vector<scheduler_t*> sch;
		std::vector<GenD> g;
		std::vector<std::unique_ptr<VarB>> var;
		std::vector<int> vtype, holds;	// variable -> type, body (as the scenario keeps track of it)
		std::vector<int> over;			// variable -> iteration: 0 none, 1 at a value, 2 ended
		std::vector<std::atomic<int>> claimed;
		std::vector<int> proc;
		std::atomic<int> objs{ 0 };
		int me() { int s = sim::self(); return s == 0 ? ns + np : proc[s]; }
	};
	Tracked::Tracked() { ++gw->objs; }
	Tracked::Tracked(char k, int g_) : kind(k), g(g_) { ++gw->objs; }
	Tracked::Tracked(const Tracked& o) : kind(o.kind), g(o.g) { o.touch(); ++gw->objs; }
	Tracked::Tracked(Tracked&& o) : kind(o.kind), g(o.g) { o.touch(); o.kind = 0; ++gw->objs; }
	Tracked::~Tracked() { touch(); magic = 0xDEADDEAD; --gw->objs; if (kind) sim::ev("\"%c\",%d,%d", kind, gw->me(), g); }

	void call(const char* o, int x, int y = 0) { sim::ev("\"C\",%d,\"%s\",%d,%d", gw->me(), o, x, y); }
	void ret(const char* o, int x) { sim::ev("\"R\",%d,\"%s\",%d,[]", gw->me(), o, x); }
	void ret(const char* o, int x, int v) { sim::ev("\"R\",%d,\"%s\",%d,[%d]", gw->me(), o, x, v); }

	template<class T> generator_t<T> body(int g, Tracked frame);
	future_t<> cobody(int g, Tracked frame);
	template<class T> struct Fn
	{
		int g; Tracked cap;
		explicit Fn(int g_) : g(g_) {}
		generator_t<T> operator()() { cap.touch(); return body<T>(g, Tracked('P', g)); }
	};
	template<class T> struct FnCo
	{	// the body is the callable's own coroutine
		int g; Tracked cap;
		explicit FnCo(int g_) : g(g_) {}
		generator_t<T> operator()() { return run(Tracked('P', g)); }
		generator_t<T> run(Tracked frame);
	};
	struct CoFn
	{
		int g; Tracked cap;
		explicit CoFn(int g_) : g(g_) {}
		future_t<> operator()() { cap.touch(); return cobody(g, Tracked('P', g)); }
	};

#define TYPES(ty, F) switch (ty) { case 0: { F(Nil) break; } case 1: { F(int) break; } case 2: { F(Big) break; } default: { F(MoveOnly) break; } }

	template<class T, class I> int at(I& it, int how)
	{
		if constexpr (std::is_same_v<T, Nil>) return 1;
		else return how & 4 ? decode(*it) : decode(*it.operator->());
	}
	void mk(int x, int g)
	{
		World* w = gw;
		call("mk", x, g);
		w->holds[x] = g; w->over[x] = 0;
#define F(T) { auto& V = static_cast<VarT<T>&>(*w->var[x]); if (w->g[g].how & 1) { if (V.g) *V.g = body<T>(g, Tracked('P', g)); else V.g.emplace(body<T>(g, Tracked('P', g))); } \
	else { auto n = body<T>(g, Tracked('P', g)); if (V.g && (w->g[g].how & 2)) *V.g = std::move(n); else { V.g.reset(); V.g.emplace(std::move(n)); } } V.it.reset(); }
		TYPES(w->vtype[x], F)
#undef F
		ret("mk", x);
	}
	void mv(int x, int y, int how)
	{
		World* w = gw;
		if (w->vtype[x] != w->vtype[y]) return;
		call("mv", x, y);
		if (x != y) { w->holds[x] = w->holds[y]; w->over[x] = w->over[y]; w->holds[y] = 0; w->over[y] = 0; }
#define F(T) { auto& X = static_cast<VarT<T>&>(*w->var[x]); auto& Y = static_cast<VarT<T>&>(*w->var[y]); \
	if (!Y.g) Y.g.emplace(); \
	if (x == y) *X.g = std::move(*Y.g); \
	else { if (X.g && how % 3) *X.g = std::move(*Y.g); else if (how % 3 == 1) { X.g.reset(); X.g.emplace(); *X.g = std::move(*Y.g); } else { generator_t<T> t(std::move(*Y.g)); X.g.reset(); X.g.emplace(std::move(t)); } \
		X.it = Y.it; Y.it.reset(); if (how & 8) Y.g.reset(); } }
		TYPES(w->vtype[x], F)
#undef F
		ret("mv", x);
	}
	void rs(int x, int how)
	{
		World* w = gw;
		call("rs", x);
		w->holds[x] = 0; w->over[x] = 0;
#define F(T) { auto& V = static_cast<VarT<T>&>(*w->var[x]); V.it.reset(); if (V.g && how % 2) *V.g = generator_t<T>(); else V.g.reset(); }
		TYPES(w->vtype[x], F)
#undef F
		ret("rs", x);
	}
	void iter(int x, bool begin, int how)
	{
		World* w = gw;
		if (!begin && w->over[x] != 1) return;
		const char* o = begin ? "b" : "+";
		call(o, x);
		int v = 0; bool end = false;
#define F(T) { auto& V = static_cast<VarT<T>&>(*w->var[x]); if (!V.g) V.g.emplace(); \
	if (begin) V.it.emplace(V.g->begin()); else { if (how & 1) ++*V.it; else (*V.it)++; } \
	end = how & 2 ? *V.it == V.g->end() : !(*V.it != V.g->end()); \
	if (!end) { v = at<T>(*V.it, how); } }
		TYPES(w->vtype[x], F)
#undef F
		w->over[x] = end ? 2 : 1;
		if (w->holds[x] == 0) w->over[x] = 0;
		if (end) ret(o, x); else ret(o, x, v);
	}
	void start(int x, int s, int how)
	{
		World* w = gw;
		if (w->holds[x] == 0 || w->over[x] != 0) return;
		call("go", x, s);
		w->holds[x] = 0;
		scheduler_t& sc = *w->sch[s - 1];
#define F(T) { auto& V = static_cast<VarT<T>&>(*w->var[x]); if (how & 1) { generator_t<T> t(std::move(*V.g)); sc + std::move(t); } else sc + std::move(*V.g); if (how & 2) V.g.reset(); }
		TYPES(w->vtype[x], F)
#undef F
		ret("go", x);
	}
	void startc(int g, int s)
	{
		World* w = gw;
		if (w->claimed[g].exchange(1)) return;
		GenD& D = w->g[g];
		call("gc", g, s);
		scheduler_t& sc = *w->sch[s - 1];
		if (D.co) { if (D.how & 1) sc + CoFn(g); else sc + cobody(g, Tracked('P', g)); }
		else
		{
#define F(T) { if (D.how & 1) sc + FnCo<T>(g); else if (D.how & 2) sc + Fn<T>(g); else { Fn<T> f(g); sc + std::move(f); } }
			TYPES(D.type, F)
#undef F
		}
		ret("gc", g);
	}
	// what a body does in front of its k-th yield, or its return
	void segment(int g, size_t k)
	{
		World* w = gw;
		for (auto& o : w->g[g].seg[k])
		{
			if (o.o == 'm')
			{
				if (w->claimed[o.g].exchange(1)) continue;
				mk(o.var, o.g);
				for (int i = 0; i < o.cnt; ++i) { if (i && w->over[o.var] != 1) break; iter(o.var, i == 0, o.cnt + i); }
				rs(o.var, o.cnt);
			}
			else if (o.o == 'b') { if (w->holds[o.var]) iter(o.var, w->over[o.var] != 1, o.cnt); }
			else if (o.o == 'c') startc(o.g, 1 + o.var % w->ns);
		}
	}
#define BODY(T) \
		World* w = gw; \
		sim::ev("\"S\",%d,%d", w->me(), g); \
		Tracked local('L', g); \
		for (size_t i = 0; i < w->g[g].y.size(); ++i) \
		{ \
			segment(g, i); \
			int v = w->g[g].y[i]; \
			sim::ev("\"Y\",%d,%d,%d", w->me(), g, v); \
			if constexpr (std::is_same_v<T, Nil>) co_yield_void; \
			else if (v % 2) co_yield make<T>(v); \
			else { T named = make<T>(v); co_yield named; } \
			sim::ev("\"S\",%d,%d", w->me(), g); \
			local.touch(); frame.touch(); \
		} \
		segment(g, w->g[g].y.size()); \
		int v = w->g[g].r; \
		sim::ev("\"D\",%d,%d,%d", w->me(), g, v); \
		if constexpr (std::is_same_v<T, Nil>) co_return_void; \
		else if (v % 2) co_return make<T>(v); \
		else { T named = make<T>(v); co_return named; }

	template<class T> generator_t<T> body(int g, Tracked frame) { BODY(T) }
	template<class T> generator_t<T> FnCo<T>::run(Tracked frame) { BODY(T) }
	future_t<> cobody(int g, Tracked frame)
	{
		World* w = gw;
		sim::ev("\"S\",%d,%d", w->me(), g);
		Tracked local('L', g);
		for (size_t i = 0; i < w->g[g].y.size(); ++i)
		{
			segment(g, i);
			sim::ev("\"Y\",%d,%d,%d", w->me(), g, w->g[g].y[i]);
			co_await rf::yield();
			sim::ev("\"S\",%d,%d", w->me(), g);
			local.touch(); frame.touch();
		}
		segment(g, w->g[g].y.size());
		sim::ev("\"D\",%d,%d,%d", w->me(), g, w->g[g].r);
	}
	void exec(const POp& o)
	{
		World* w = gw;
		switch (o.o)
		{
		case 'k': if (w->vtype[o.x] == w->g[o.y].type && !w->claimed[o.y].exchange(1)) mk(o.x, o.y); break;
		case 'v': mv(o.x, o.y, o.how); break;
		case 'r': rs(o.x, o.how); break;
		case 'b': iter(o.x, true, o.how); break;
		case '+': iter(o.x, false, o.how); break;
		case 'a': if (w->over[o.x] == 0) iter(o.x, true, o.how); for (int i = 0; i < 12 && w->over[o.x] == 1; ++i) iter(o.x, false, o.how + i); break;
		case 'g': start(o.x, o.y, o.how); break;
		case 'c': startc(o.x, o.y); break;
		}
	}
}

void scenario_main(const char* family)
{
	const bool wide = strstr(family, "_wide") != nullptr;
	long before = sim::live_blocks();
	{
		World W; World* w = gw = &W;
		if (wide) sim::plain_strategy();
		w->ns = 1 + sim::rnd(2);
		int plainThreads = sim::rnd(3);
		w->np = plainThreads + 1;
		int ng = wide ? 6 + sim::rnd(15) : 1 + sim::rnd(5);
		int nact = w->ns + plainThreads;	// threads that iterate
		w->g.resize(ng + 1);
		w->claimed = std::vector<std::atomic<int>>(ng + 1);
		auto val = [](int ty) { return ty == 0 ? 1 : 2 + (int)sim::rnd(900); };
		// variables: two or three of a type per thread; one for each nested generator
		w->vtype.push_back(0); w->holds.push_back(0); w->over.push_back(0); w->var.push_back(nullptr);
		auto newVar = [&](int ty) {
#define F(T) w->var.push_back(std::make_unique<VarT<T>>());
			TYPES(ty, F)
#undef F
			w->vtype.push_back(ty); w->holds.push_back(0); w->over.push_back(0);
			return (int)w->var.size() - 1;
		};
		int mainType = sim::rnd(4);
		auto type = [&] { return sim::chance(3, 4) ? mainType : (int)sim::rnd(4); };
		std::vector<std::vector<int>> vars(nact + 1);
		for (int p = 1; p <= nact; ++p) { int n = 2 + sim::rnd(2); for (int i = 0; i < n; ++i) vars[p].push_back(newVar(type())); }
		for (int g = 1; g <= ng; ++g)
		{
			GenD& D = w->g[g];
			D.co = sim::chance(1, 6); D.type = D.co ? 0 : type(); D.how = sim::rnd(8);
			int n = wide && sim::chance(1, 5) ? 8 + sim::rnd(30) : sim::rnd(wide ? 7 : 4);
			for (int i = 0; i < n; ++i) D.y.push_back(val(D.type));
			D.r = val(D.type);
			D.seg.resize(n + 1);
		}
		// nested generators: an earlier one is iterated by a later one
		for (int g = 1; g < ng; ++g)
			if (!w->g[g].co && sim::chance(1, 3))
			{
				GenD& P = w->g[g + 1 + sim::rnd(ng - g)];
				BOp b{ 'm', g, newVar(w->g[g].type), (int)sim::rnd(5) };
				auto& sg = P.seg[sim::rnd((uint32_t)P.seg.size())];
				sg.push_back(b);
			}
			else if (sim::chance(1, 5)) { GenD& P = w->g[g + 1 + sim::rnd(ng - g)]; P.seg[sim::rnd((uint32_t)P.seg.size())].push_back({ 'c', g, (int)sim::rnd(4), 0 }); }
		w->nv = (int)w->var.size() - 1;
		auto genOp = [&](int p) {
			POp o; o.how = sim::rnd(16);
			o.x = vars[p][sim::rnd((uint32_t)vars[p].size())];
			int c = sim::rnd(100);
			if (c < 30) { o.o = 'k'; o.y = 1 + sim::rnd(ng); if (w->g[o.y].co) { o.o = 'c'; o.x = o.y; o.y = 1 + sim::rnd(w->ns); } }
			else if (c < 40) { o.o = 'v'; o.y = vars[p][sim::rnd((uint32_t)vars[p].size())]; }
			else if (c < 46) o.o = 'r';
			else if (c < 58) o.o = 'b';
			else if (c < 76) o.o = '+';
			else if (c < 82) o.o = 'a';
			else if (c < 92) { o.o = 'g'; o.y = 1 + sim::rnd(w->ns); }
			else { o.o = 'c'; o.x = 1 + sim::rnd(ng); o.y = 1 + sim::rnd(w->ns); }
			return o;
		};
		std::vector<std::vector<POp>> ops(nact + 1);
		for (int p = 1; p <= nact; ++p) { int n = 1 + sim::rnd(wide ? 40 : 9); for (int i = 0; i < n; ++i) ops[p].push_back(genOp(p)); }
		std::string js1;
		for (int g = 1; g <= ng; ++g)
		{
			char b[80];
			snprintf(b, sizeof b, "%s{\"k\":\"%s\",\"r\":%d,\"y\":", g > 1 ? "," : "", w->g[g].co ? "co" : "gen", w->g[g].r);
			js1 += b; js1 += js(w->g[g].y) + "}";
		}
		sim::cfg("\"ns\":%d,\"np\":%d,\"nv\":%d,\"g\":[%s]", w->ns, w->np, w->nv, js1.c_str());
		w->proc.assign(64, 0);
		w->sch.assign(w->ns, nullptr);
		struct Ctl { std::atomic<bool> begin{ false }, quit{ false }; } ctl;
		for (int h = 0; h < w->ns; ++h)
			w->proc[sim::spawn([w, h, &ctl, &ops] {
				local_scheduler_t ls;
				w->sch[h] = this_scheduler();
				while (!ctl.begin) sim::poll([](void* c) { return static_cast<Ctl*>(c)->begin.load(); }, &ctl);
				for (auto& o : ops[h + 1])
				{
					exec(o);
					if ((o.how & 12) == 12) w->sch[h]->run_one_batch();
				}
				while (!ctl.quit) sim::poll(host_poll_fn, w->sch[h]);
				if (!w->sch[h]->empty()) sim::fault("not-empty"); else sim::ev("\"E\",%d", h + 1);
				w->sch[h]->run_until_notask();
			})] = h + 1;
		sim::run_until_quiescent();
		for (int i = 0; i < plainThreads; ++i)
			w->proc[sim::spawn([w, i, &ops] { for (auto& o : ops[w->ns + 1 + i]) exec(o); })] = w->ns + 1 + i;
		ctl.begin = true;
		sim::wake_all();
		sim::run_until_quiescent();
		if (sim::deadlocked()) sim::fault("deadlock");
		sim::ev("\"Q\"");
		ctl.quit = true;
		sim::wake_all();
		sim::run_until_quiescent();
		if (!sim::all_done()) sim::fault("host-stuck");
		for (int x = 1; x <= w->nv; ++x) rs(x, x);
		sim::ev("\"Z\"");
		w->var.clear();
		if (w->objs != 0) sim::fault("object-kept");
		gw = nullptr;
	}
	if (sim::live_blocks() != before) sim::fault("leak");
}
