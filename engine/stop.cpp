// Scenarios for stop_source, stop_token, stop_callback (K01, K02).
#include "common.h"

namespace
{
	using Src = rf::stop_source;
	using Tok = rf::stop_token;
	struct Op { std::string o; int a = 0, b = 0, how = 0; };
	using Script = std::vector<Op>;
	struct World;
	struct Fn
	{
		World* w; int c;
		Fn(World* w_, int c_);
		Fn(const Fn& o);
		Fn(Fn&& o) noexcept;
		~Fn();
		void operator()();
	};
	using CB = rf::stop_callback<Fn>;
	struct World
	{
		std::vector<Src> src;
		std::vector<Tok> tok;
		struct C { void* mem = nullptr; bool present = false, constructed = false; bool self = false; int given = 0; Script body; };
		std::vector<C> cb;
		int tid0 = 0, np = 0;
		std::atomic<int> next_id{ 10 }, fns{ 0 };
		int me() { int t = sim::self(); return t == 0 ? np + 1 : t - tid0 + 1; }
	};
	Fn::Fn(World* w_, int c_) : w(w_), c(c_) { ++w->fns; }
	Fn::Fn(const Fn& o) : w(o.w), c(o.c) { ++w->fns; }
	Fn::Fn(Fn&& o) noexcept : w(o.w), c(o.c) { ++w->fns; }
	Fn::~Fn() { --w->fns; w = nullptr; }

	void call(int p, const std::string& o, int a, int b) { sim::ev("\"C\",%d,\"%s\",%d,%d", p, o.c_str(), a, b); }
	void ret(int p, const std::string& o, int r = 0) { sim::ev("\"R\",%d,\"%s\",%d", p, o.c_str(), r); }

	void destroy(World& w, int p, int c)
	{
		auto& k = w.cb[c - 1];
		void* m = k.mem;
		k.present = k.constructed = false;
		k.mem = nullptr;
		call(p, "d", c, 0);
		static_cast<CB*>(m)->~CB();
		ret(p, "d");
		::operator delete(m);
	}

	// the shared source slot is 1; every actor has two source and two token slots of its own
	void exec(World& w, const Script& s)
	{
		int p = w.me();
		for (auto& o : s)
		{
			if (o.o == "Y") { std::this_thread::yield(); continue; }
			if (o.o == "d")
			{
				auto& k = w.cb[o.a - 1];
				if (k.present && k.constructed) destroy(w, p, o.a);
				continue;
			}
			if (o.o == "r" || o.o == "rm")
			{
				auto& k = w.cb[o.a - 1];
				if (k.present) continue;
				void* m = ::operator new(sizeof(CB));
				k.present = true; k.mem = m;
				call(p, o.o, o.a, o.b);
				Tok& t = w.tok[o.b - 1];
				if (o.o == "r") new (m) CB(t, Fn{ &w, o.a });
				else { new (m) CB(std::move(t), Fn{ &w, o.a }); t = Tok(); }
				k.constructed = true;
				ret(p, o.o);
				continue;
			}
			int b = o.b;
			if (o.o == "sn" || o.o == "mk") b = w.next_id++;
			call(p, o.o, o.a, b);
			int r = 0;
			auto S = [&](int i) -> Src& { return w.src[i - 1]; };
			auto T = [&](int i) -> Tok& { return w.tok[i - 1]; };
			if (o.o == "sn") { if (o.how & 1) S(o.a) = Src(); else { Src n; S(o.a).swap(n); } }
			else if (o.o == "mk") S(o.a).make_sure_possible();
			else if (o.o == "sc") { if (o.how & 1) S(o.a) = S(b); else { Src n(S(b)); S(o.a) = std::move(n); } }
			else if (o.o == "sm") S(o.a) = std::move(S(b));
			else if (o.o == "sw") S(o.a).swap(S(b));
			else if (o.o == "sx") { if (o.how & 1) S(o.a) = Src(rf::nostopstate); else { S(o.a).~Src(); new (&S(o.a)) Src(rf::nostopstate); } }
			else if (o.o == "se") r = o.how & 1 ? S(o.a) == S(b) : !(S(o.a) != S(b));
			else if (o.o == "sq") r = S(o.a).stop_requested();
			else if (o.o == "sp") r = S(o.a).stop_possible();
			else if (o.o == "ss") r = S(o.a).request_stop();
			else if (o.o == "st") { if (o.how & 1) T(o.a) = S(b).get_token(); else { Tok n(S(b).get_token()); T(o.a).swap(n); } }
			else if (o.o == "tc") { if (o.how & 1) T(o.a) = T(b); else { Tok n(T(b)); T(o.a) = std::move(n); } }
			else if (o.o == "tm") T(o.a) = std::move(T(b));
			else if (o.o == "tw") T(o.a).swap(T(b));
			else if (o.o == "tx") { if (o.how & 1) T(o.a) = Tok(); else { T(o.a).~Tok(); new (&T(o.a)) Tok(); } }
			else if (o.o == "te") r = o.how & 1 ? T(o.a) == T(b) : !(T(o.a) != T(b));
			else if (o.o == "tq") r = T(o.a).stop_requested();
			else if (o.o == "tp") r = T(o.a).stop_possible();
			ret(p, o.o, r);
		}
	}
	void Fn::operator()()
	{
		World* ww = w;
		int cc = c, p = ww->me();
		sim::ev("\"B\",%d,%d", p, cc);
		exec(*ww, ww->cb[cc - 1].body);
		if (ww->cb[cc - 1].self && ww->cb[cc - 1].constructed) destroy(*ww, p, cc);
		sim::ev("\"E\",%d,%d", p, cc);
	}
}

void scenario_main(const char* family)
{
	bool wide = !strcmp(family, "stop_wide");
	// stop_race: one state, everything registered early; requests, destructions and long bodies meet
	bool race = !strcmp(family, "stop_race");
	int np = wide ? 1 : 2 + sim::rnd(2), nc = wide ? 3 + sim::rnd(6) : race ? 2 + sim::rnd(3) : 1 + sim::rnd(3);
	if (wide) sim::plain_strategy();
	int actors = np + nc;
	long before = sim::live_blocks();
	{
		World w;
		w.np = np;
		int ns = !race && sim::chance(1, 4) ? 2 : 1;
		std::vector<int> s0, t0;
		bool poor = !race && sim::chance(1, 2);		// few handles: states die early
		s0.push_back(sim::chance(1, 4) ? 1 + (int)sim::rnd(ns) : 0);
		for (int a = 0; a < actors; ++a)
		{
			bool body = a >= np;
			for (int k = 0; k < 2; ++k)
			{
				s0.push_back(race && !body ? 1 : sim::chance(poor || body ? 1 : 2, poor || body ? 5 : 3) ? 1 + (int)sim::rnd(ns) : 0);
				t0.push_back(race && !body ? 1 : sim::chance(body ? 1 : 2, body ? 4 : 3) ? 1 + (int)sim::rnd(ns) : 0);
			}
		}
		{
			std::vector<Src> master(ns);
			for (int i : s0) w.src.push_back(i ? master[i - 1] : Src(rf::nostopstate));
			for (int i : t0) w.tok.push_back(i ? master[i - 1].get_token() : Tok());
		}
		w.cb.resize(nc);
		// who registers and destroys callback c: a thread; or the body of another callback (registers, destroys)
		std::vector<int> owner(nc);
		for (int c = 0; c < nc; ++c)
		{
			owner[c] = sim::rnd(np);
			if (c > 0 && sim::chance(1, 4)) owner[c] = np + sim::rnd(c);
			w.cb[c].self = sim::chance(1, 5);
			if (c > 0 && owner[c] < np && sim::chance(1, 3)) { w.cb[c].given = 1 + sim::rnd(c); w.cb[c].self = false; owner[c] = owner[w.cb[c].given - 1]; }
			if (owner[c] >= np) w.cb[c].self = false;
		}
		auto script = [&](int a, int n) {
			Script s;
			if (race)
			{
				std::vector<Op> late;
				for (int c = 0; c < nc; ++c)
				{
					if (owner[c] != a || w.cb[c].given) continue;
					if (!s.empty() && sim::chance(1, 4)) s.push_back({ "Y" });
					s.push_back({ sim::chance(1, 4) ? "rm" : "r", c + 1, 1 + 2 * a + (int)sim::rnd(2) });
					if (!w.cb[c].self && sim::chance(4, 5)) late.push_back({ "d", c + 1 });
				}
				if (a < np && (late.empty() || sim::chance(1, 3))) late.push_back({ "ss", sim::chance(1, 3) ? 1 : 2 + 2 * a });
				if (sim::chance(1, 6)) late.push_back({ "tx", 1 + 2 * a, 0, (int)sim::rnd(2) });
				if (sim::chance(1, 6)) late.push_back({ "sx", 2 + 2 * a, 0, (int)sim::rnd(2) });
				std::vector<int> own;
				for (auto& x : late) if (x.o == "d") own.push_back(x.a);
				if (!own.empty() && sim::chance(1, 6)) late.push_back({ "r", own[sim::rnd((uint32_t)own.size())], 1 + 2 * a });
				for (size_t i = late.size(); i > 1; --i) std::swap(late[i - 1], late[sim::rnd((uint32_t)i)]);
				for (auto& x : late) { for (int y = sim::rnd(4); y > 1; --y) s.push_back({ "Y" }); s.push_back(x); }
				if (a >= np) for (int y = sim::rnd(4); y > 0; --y) s.push_back({ "Y" });
				return s;
			}
			std::vector<int> mine;
			for (int c = 0; c < nc; ++c) if (owner[c] == a && !w.cb[c].given) mine.push_back(c + 1);
			auto sl = [&] { return 2 + 2 * a + (int)sim::rnd(2); };
			auto tl = [&] { return 1 + 2 * a + (int)sim::rnd(2); };
			auto ssl = [&] { return sim::chance(1, 4) ? 1 : sl(); };
			for (int i = 0; i < n; ++i)
			{
				int k = sim::rnd(34);
				int how = sim::rnd(4);
				if (sim::chance(1, 8)) s.push_back({ "Y" });
				if (k < 10 && !mine.empty())
				{
					int c = mine[sim::rnd((uint32_t)mine.size())];
					if (k < 6)
					{	// its children first, or last
						int t = tl();
						std::vector<Op> g;
						for (int d = 0; d < nc; ++d) if (w.cb[d].given == c && owner[d] == a) g.push_back({ "r", d + 1, t });
						Op r{ sim::chance(1, 3) ? "rm" : "r", c, t };
						if (sim::chance(1, 2)) { for (auto& x : g) s.push_back(x); s.push_back(r); }
						else { s.push_back({ "r", c, t }); }
					}
					else if (!w.cb[c - 1].self) s.push_back({ "d", c });
				}
				else if (k < 14) s.push_back({ "ss", ssl() });
				else if (k < 15) { int m = sim::chance(1, 2) ? 1 : sl(); s.push_back({ "mk", m }); s.push_back({ "st", tl(), m, how }); }
				else if (k < 16) s.push_back({ "sn", sl(), 0, how });
				else if (k < 18) s.push_back({ "sc", sl(), sl(), how });
				else if (k < 19) s.push_back({ "sm", sl(), sl(), how });
				else if (k < 20) s.push_back({ "sw", sl(), sl(), how });
				else if (k < 22) s.push_back({ "sx", sl(), 0, how });
				else if (k < 23) s.push_back({ sim::chance(1, 2) ? "se" : "sp", sl(), sl(), how });
				else if (k < 24) s.push_back({ "sq", sl(), 0 });
				else if (k < 25) s.push_back({ "st", tl(), sl(), how });
				else if (k < 26) s.push_back({ "tc", tl(), tl(), how });
				else if (k < 27) s.push_back({ "tm", tl(), tl(), how });
				else if (k < 28) s.push_back({ "tw", tl(), tl(), how });
				else if (k < 30) s.push_back({ "tx", tl(), 0, how });
				else if (k < 31) s.push_back({ "te", tl(), tl(), how });
				else if (k < 32) s.push_back({ "tq", tl(), 0 });
				else s.push_back({ "tp", tl(), 0 });
			}
			return s;
		};
		std::vector<Script> sc;
		for (int p = 0; p < np; ++p) sc.push_back(script(p, wide ? 20 + sim::rnd(40) : 2 + sim::rnd(5)));
		for (int c = 0; c < nc; ++c)
		{
			w.cb[c].body = script(np + c, sim::rnd(3));
			for (int d = 0; d < nc; ++d) if (w.cb[d].given == c + 1 && sim::chance(3, 4)) w.cb[c].body.push_back({ "d", d + 1 });
		}
		sim::cfg("\"np\":%d,\"nc\":%d,\"src\":%s,\"tok\":%s", np + 1, nc, js(s0).c_str(), js(t0).c_str());
		for (int p = 0; p < np; ++p)
		{
			int t = sim::spawn([p, &w, &sc] { exec(w, sc[p]); });
			if (p == 0) w.tid0 = t;
		}
		sim::run_until_quiescent();
		if (sim::deadlocked() || sim::spinning()) sim::fault("deadlock");
		sim::ev("\"Q\"");
		// everything goes, in any order
		std::vector<std::pair<int, int>> rest;
		for (int c = 1; c <= nc; ++c) rest.push_back({ 0, c });
		for (size_t i = 1; i <= w.src.size(); ++i) rest.push_back({ 1, (int)i });
		for (size_t i = 1; i <= w.tok.size(); ++i) rest.push_back({ 2, (int)i });
		for (size_t i = rest.size() - 1; i > 0; --i) std::swap(rest[i], rest[sim::rnd((uint32_t)i + 1)]);
		for (auto& r : rest)
		{
			Script s;
			if (r.first == 0) { if (w.cb[r.second - 1].present) s.push_back({ "d", r.second }); }
			else if (r.first == 1) { if (w.src[r.second - 1].stop_possible()) s.push_back({ "sx", r.second, 0, (int)sim::rnd(2) }); }
			else s.push_back({ "tx", r.second, 0, (int)sim::rnd(2) });
			exec(w, s);
			if (r.first == 2 && sim::chance(1, 3)) continue;
			for (size_t i = 0; i < w.tok.size(); ++i) if (sim::chance(1, (uint32_t)w.tok.size())) exec(w, { { "tp", (int)i + 1 }, { "tq", (int)i + 1 } });
		}
		sim::ev("\"Q\"");
		if (w.fns != 0) sim::fault("callback-object");
	}
	if (sim::live_blocks() != before) sim::fault("leak");
}
