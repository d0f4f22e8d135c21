// Scenarios for the binding of threads to schedulers: scheduler_t, local_scheduler_t, this_scheduler(), go (S05).
#include "common.h"
#include <map>
#include <atomic>

namespace
{
	using rf::scheduler_t; using rf::local_scheduler_t; using rf::future_t; using rf::this_scheduler;
	struct Sch : scheduler_t {};
	struct Op { char o; int x = 0, y = 0; };
	struct World;
	struct Actor
	{
		int p;
		std::map<int, std::unique_ptr<Sch>> own;			// by id
		std::map<int, std::unique_ptr<local_scheduler_t>> loc;
		std::map<int, int> made;								// local -> id of the scheduler it has made
		std::map<scheduler_t*, int> id;
		int next = 0;
	};
	struct World
	{
		int np;
		std::map<scheduler_t*, int> shared;
		std::vector<scheduler_t*> sh;
		std::vector<Actor> act;
		std::vector<int> proc;
		std::atomic<int> tasks{ 0 };
		std::vector<std::vector<Op>> body;
		Actor& me() { return act[proc[sim::self()]]; }
	};
	int idOf(World& w, Actor& a, scheduler_t* s)
	{
		if (s == &scheduler_t::g_scheduler) return 0;
		auto i = a.id.find(s);
		if (i != a.id.end()) return i->second;
		auto j = w.shared.find(s);
		return j != w.shared.end() ? j->second : -1;
	}
	void exec(World& w, const std::vector<Op>& ops, bool inside);
	void runs(World& w, int k, int n)
	{
		Actor& a = w.me();
		sim::ev("\"t\",%d,%d,%d,%d", a.p, k, n, idOf(w, a, this_scheduler()));
		exec(w, w.body[(size_t)k % w.body.size()], true);
	}
	future_t<> co(World& w, int k, int turns)
	{
		for (int i = 0; i < turns; ++i) co_await rf::yield();
		scheduler_t* s = librf_current_scheduler();
		runs(w, k, idOf(w, w.me(), s));
	}
	void settle(World& w, Actor& a, scheduler_t* s, int n)
	{
		s->run_until_notask();
		sim::ev("\"e\",%d,%d", a.p, n);
	}
	void exec(World& w, const std::vector<Op>& ops, bool inside)
	{
		Actor& a = w.me();
		for (auto& o : ops)
		{
			int here = a.p * 100;
			switch (o.o)
			{
			case 'n':
			{
				int s = here + o.x;
				if (a.own.count(s) || inside) break;
				auto p = std::make_unique<Sch>();
				a.id[p.get()] = s;
				a.own[s] = std::move(p);
				sim::ev("\"n\",%d,%d", a.p, s);
				break;
			}
			case 'd':
			{
				int s = here + o.x;
				if (!a.own.count(s) || inside) break;
				settle(w, a, a.own[s].get(), s);
				a.id.erase(a.own[s].get());
				a.own.erase(s);
				sim::ev("\"d\",%d,%d", a.p, s);
				break;
			}
			case 'l':
			{
				int x = here + o.x;
				if (a.loc.count(x)) break;
				a.loc[x] = std::make_unique<local_scheduler_t>();
				scheduler_t* s = this_scheduler();
				int n = idOf(w, a, s);
				if (n < 0) { n = here + 50 + a.next++; a.id[s] = n; a.made[x] = n; }
				sim::ev("\"l\",%d,%d,%d", a.p, x, n);
				break;
			}
			case 'a':
			{
				int x = here + o.x;
				if (a.loc.count(x)) break;
				scheduler_t* s = nullptr;
				if (o.y > 0) { auto i = a.own.find(here + o.y); if (i != a.own.end()) s = i->second.get(); }
				// somebody else's: only while it can not be bound to
				else if (!w.sh.empty() && this_scheduler() != &scheduler_t::g_scheduler) s = w.sh[(size_t)(-o.y) % w.sh.size()];
				if (!s) break;
				a.loc[x] = std::make_unique<local_scheduler_t>(*s);
				sim::ev("\"a\",%d,%d,%d", a.p, x, idOf(w, a, s));
				break;
			}
			case 'x':
			{
				int x = here + o.x;
				if (!a.loc.count(x)) break;
				auto m = a.made.find(x);
				if (m != a.made.end())
				{
					if (inside) break;
					for (auto& i : a.id) if (i.second == m->second) { settle(w, a, i.first, m->second); a.id.erase(i.first); break; }
					a.made.erase(m);
				}
				a.loc.erase(x);
				sim::ev("\"x\",%d,%d", a.p, x);
				break;
			}
			case 'q': sim::ev("\"q\",%d,%d", a.p, idOf(w, a, this_scheduler())); break;
			case 'g':
			{
				if (w.tasks > 40) break;
				int k = ++w.tasks;
				sim::ev("\"g\",%d,%d", a.p, k);
				if (o.x & 1) go co(w, k, o.y);
				else go [&w, k]() -> future_t<> { runs(w, k, idOf(w, w.me(), librf_current_scheduler())); };
				break;
			}
			case 'G':
			{
				if (w.tasks > 40 || w.sh.empty()) break;
				int k = ++w.tasks;
				scheduler_t* s = w.sh[(size_t)o.x % w.sh.size()];
				sim::ev("\"G\",%d,%d,%d", a.p, k, idOf(w, a, s));
				*s + co(w, k, o.y);
				break;
			}
			case 'r':
			{
				if (inside) break;
				auto i = a.own.find(here + o.x);
				if (i != a.own.end()) settle(w, a, i->second.get(), i->first);
				break;
			}
			case 'R':
			{
				if (inside) break;
				scheduler_t* s = this_scheduler();
				if (s != &scheduler_t::g_scheduler && !w.shared.count(s)) settle(w, a, s, idOf(w, a, s));
				break;
			}
			case 'Y': std::this_thread::yield(); break;
			}
		}
	}
	// everything of its own goes
	void leave(World& w, const std::vector<int>& order)
	{
		Actor& a = w.me();
		for (int round = 0; round < 2; ++round)
			for (int o : order)
			{
				if (o < 10) exec(w, { { 'd', o } }, false); else exec(w, { { 'x', o - 10 } }, false);
				exec(w, { { 'q' } }, false);
			}
		for (auto& i : a.own) { (void)i; sim::fault("kept"); }
	}
}

// the global scheduler lives from one execution to the next: it takes its memory before the first
void scenario_init()
{
	for (int i = 0; i < 200; ++i) scheduler_t::g_scheduler + []() -> future_t<> { co_return; };
	scheduler_t::g_scheduler.run_until_notask();
}

void scenario_main(const char* family)
{
	const bool wide = strstr(family, "_wide") != nullptr;
	if (wide) sim::plain_strategy();
	long before = sim::live_blocks();
	{
		World w;
		int nt = 1 + sim::rnd(wide ? 2 : 3), nsh = sim::rnd(3);
		w.np = nt + 1;
		w.act.resize(w.np + 1);
		w.proc.assign(64, 0);
		w.proc[0] = w.np;
		for (int p = 1; p <= w.np; ++p) w.act[p].p = p;
		auto op = [&] {
			static const char K[] = "nnndddlllllaaaaxxxxxqqgggGrRRY";
			Op o{ K[sim::rnd(sizeof K - 1)] };
			o.x = 1 + sim::rnd(3);
			o.y = o.o == 'a' ? (sim::chance(2, 3) ? 1 + (int)sim::rnd(3) : -(int)sim::rnd(2)) : (int)sim::rnd(3);
			return o;
		};
		for (int i = 0; i < 5; ++i) { std::vector<Op> b; if (i) for (int n = sim::rnd(4); n > 0; --n) b.push_back(op()); w.body.push_back(b); }
		std::vector<std::vector<Op>> sc(nt + 1);
		for (int i = 1; i <= nt; ++i) for (int n = wide ? 30 + sim::rnd(60) : 3 + sim::rnd(10); n > 0; --n) sc[i].push_back(op());
		auto order = [&] {
			std::vector<int> v{ 1, 2, 3, 11, 12, 13 };
			for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[sim::rnd((uint32_t)i)]);
			return v;
		};
		std::vector<std::vector<int>> ord(nt + 2);
		for (auto& v : ord) v = order();
		sim::cfg("\"np\":%d", w.np);
		Actor& c = w.act[w.np];
		for (int i = 1; i <= nsh; ++i) exec(w, { { 'n', i } }, false);
		for (auto& i : c.own) { w.sh.push_back(i.second.get()); w.shared[i.second.get()] = i.first; }
		exec(w, { { 'q' } }, false);
		for (int i = 1; i <= nt; ++i)
			w.proc[sim::spawn([&w, &sc, &ord, i] { exec(w, sc[i], false); leave(w, ord[i]); })] = i;
		sim::run_until_quiescent();
		if (!sim::all_done()) sim::fault("deadlock");
		// tasks may start others, on the global scheduler and on those of the controller
		for (int round = 0; round < 50; ++round)
		{
			bool more = !scheduler_t::g_scheduler.empty();
			scheduler_t::g_scheduler.run_until_notask();
			for (auto s : w.sh) { more |= !s->empty(); s->run_until_notask(); }
			if (!more) break;
		}
		sim::ev("\"e\",%d,0", w.np);
		for (auto& i : c.own) sim::ev("\"e\",%d,%d", w.np, i.first);
		exec(w, { { 'q' } }, false);
		w.sh.clear();
		leave(w, ord[nt + 1]);
	}
	if (sim::live_blocks() != before) sim::fault("leak");
}
