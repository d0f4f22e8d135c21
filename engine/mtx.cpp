// Scenarios for mutex_t (M01-M04).
#include "common.h"

namespace
{
	using rf::mutex_t;
	using Mxs = std::shared_ptr<std::vector<mutex_t>>;
	static char addr_of[400];
	void* addr(int k) { return &addr_of[k]; }

	struct Guard { virtual ~Guard() {} virtual void unlock() = 0; virtual void shuffle(int how) = 0; virtual bool same(Guard& o) = 0; virtual void assign(Guard& o) = 0; };
	template<class G> struct GuardOf : Guard
	{
		std::unique_ptr<G> g;
		explicit GuardOf(G&& x) : g(std::make_unique<G>(std::move(x))) {}
		void unlock() override { g->unlock(); }
		bool same(Guard& o) override { return dynamic_cast<GuardOf*>(&o) != nullptr; }
		void assign(Guard& o) override { *g = std::move(*static_cast<GuardOf&>(o).g); }
		void shuffle(int how) override
		{	// moved around: releases nothing
			if (how & 1) { auto n = std::make_unique<G>(std::move(*g)); g = std::move(n); }
			if (how & 2) { G tmp(std::move(*g)); *g = std::move(tmp); }
		}
	};
	using GuardP = std::shared_ptr<Guard>;
	template<class G> GuardP wrap(G&& g) { return std::make_shared<GuardOf<std::remove_cvref_t<G>>>(std::move(g)); }

	struct Op { char o; std::vector<int> ms; int64_t dt = 0; int how = 0, depth = 0; };
	using Script = std::vector<Op>;
	struct Held { std::vector<int> ms; GuardP g; };
	struct Proc
	{
		int p, key;
		Mxs M;
		std::vector<Held> held;
		std::vector<GuardP> spent;		// guards that have given up what they held: of no effect any more
		void call(char o, const std::vector<int>& ms, int k, int64_t d = 0) { sim::ev("\"C\",%d,\"%c\",%s,%d,%lld", p, o, js(ms).c_str(), k, (long long)d); }
		void ret(char o, int r = 0) { sim::ev("\"R\",%d,\"%c\",%d", p, o, r); }
		mutex_t& m(int i) { return (*M)[i - 1]; }
		Held take(int how)
		{
			size_t i = how % 3 == 0 ? 0 : held.size() - 1;
			Held h = std::move(held[i]);
			held.erase(held.begin() + i);
			return h;
		}
		// gives up what a guard holds; the events around it
		void drop_guard(Held& h, int how)
		{
			h.g->shuffle(how >> 3);
			if (how & 32) for (size_t i = 0; i < held.size(); ++i)
				if (held[i].g && held[i].g->same(*h.g))
				{	// the guard takes over another lock: gives up its own
					Held n = std::move(held[i]);
					held.erase(held.begin() + i);
					char o = h.ms.size() > 1 ? 'U' : 'u';
					call(o, h.ms, key);
					h.g->assign(*n.g);
					ret(o);
					if (how & 1) n.g.reset();
					held.push_back({ n.ms, h.g });
					return;
				}
			char o = h.ms.size() > 1 ? 'U' : 'u';
			call(o, h.ms, key);
			if (how & 4) { h.g->unlock(); ret(o); if (how & 2) spent.push_back(std::move(h.g)); else h.g.reset(); return; }
			h.g.reset();
			ret(o);
		}
	};
	using PP = std::shared_ptr<Proc>;

	rf::future_t<GuardP> acquire(PP P, Op o)
	{
		auto& p = *P;
		if (o.depth > 0) { --o.depth; co_return co_await acquire(P, o); }
		if (o.o == 'l')
		{
			p.call('l', o.ms, p.key);
			GuardP g;
			switch (o.how % 3)
			{
			case 0: g = wrap(co_await p.m(o.ms[0])); break;
			case 1: g = wrap(co_await p.m(o.ms[0]).lock()); break;
			default: co_await p.m(o.ms[0]).lock(rf::adopt_manual_unlock); break;
			}
			p.ret('l', 1);
			co_return g;
		}
		// M
		p.call('M', o.ms, p.key);
		GuardP g;
		if (o.how & 1)
		{
			if (o.ms.size() == 2) co_await mutex_t::lock(rf::adopt_manual_unlock, p.m(o.ms[0]), p.m(o.ms[1]));
			else if (o.ms.size() == 3) co_await mutex_t::lock(rf::adopt_manual_unlock, p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2]));
			else co_await mutex_t::lock(rf::adopt_manual_unlock, p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2]), p.m(o.ms[3]));
		}
		else
		{
			if (o.ms.size() == 2) g = wrap(co_await mutex_t::lock(p.m(o.ms[0]), p.m(o.ms[1])));
			else if (o.ms.size() == 3) g = wrap(co_await mutex_t::lock(p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2])));
			else g = wrap(co_await mutex_t::lock(p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2]), p.m(o.ms[3])));
		}
		p.ret('M', 1);
		co_return g;
	}

	rf::future_t<bool> attempt(PP P, Op o)
	{
		auto& p = *P;
		if (o.depth > 0) { --o.depth; co_return co_await attempt(P, o); }
		bool r;
		if (o.o == 'y')
		{
			p.call('y', o.ms, p.key);
			r = co_await p.m(o.ms[0]).try_lock();
			p.ret('y', r);
			co_return r;
		}
		sim::hold_clock(true);
		int64_t d = sim::now() + o.dt;
		sim::deadline(d);
		p.call('T', o.ms, p.key, d);
		if (o.how & 1) { auto a = with_dur(o.dt, o.how >> 1, [&](auto x) { return p.m(o.ms[0]).try_lock_for(x); }); sim::hold_clock(false); r = co_await a; }
		else { auto a = with_tp(d, o.how >> 1, [&](auto x) { return p.m(o.ms[0]).try_lock_until(x); }); sim::hold_clock(false); r = co_await a; }
		p.ret('T', r);
		co_return r;
	}

	rf::future_t<> release(PP P, Held h, int how)
	{
		auto& p = *P;
		if (how & 64) { co_await release(P, std::move(h), how & ~64); co_return; }
		if (h.g) { p.drop_guard(h, how); co_return; }
		if (h.ms.size() == 1)
		{
			p.call('u', h.ms, p.key);
			if (how & 1) co_await p.m(h.ms[0]).unlock();
			else p.m(h.ms[0]).unlock(librf_root_state());
			p.ret('u');
			co_return;
		}
		p.call('U', h.ms, p.key);
		if (how & 1)
		{
			if (h.ms.size() == 2) co_await mutex_t::unlock(p.m(h.ms[0]), p.m(h.ms[1]));
			else if (h.ms.size() == 3) co_await mutex_t::unlock(p.m(h.ms[0]), p.m(h.ms[1]), p.m(h.ms[2]));
			else co_await mutex_t::unlock(p.m(h.ms[0]), p.m(h.ms[1]), p.m(h.ms[2]), p.m(h.ms[3]));
		}
		else
		{
			void* r = librf_root_state();
			if (h.ms.size() == 2) mutex_t::unlock(r, p.m(h.ms[0]), p.m(h.ms[1]));
			else if (h.ms.size() == 3) mutex_t::unlock(r, p.m(h.ms[0]), p.m(h.ms[1]), p.m(h.ms[2]));
			else mutex_t::unlock(r, p.m(h.ms[0]), p.m(h.ms[1]), p.m(h.ms[2]), p.m(h.ms[3]));
		}
		p.ret('U');
	}

	void stray(Proc& p, const Op& o, void* a, int k)
	{	// an unlock by somebody who may not be the owner
		p.call('u', o.ms, k);
		p.m(o.ms[0]).unlock(a);
		p.ret('u');
	}

	rf::future_t<> proc(PP P, Script s, Hosts* H)
	{
		auto& p = *P;
		for (auto& o : s)
		{
			if ((o.how & 3) == 3) p.spent.clear();
			switch (o.o)
			{
			case 'Y': co_await rf::yield(); break;
			case 'v':
				co_await rf::via((*H)[o.ms[0] - 1]);
				sim::ev("\"V\",%d,%d", p.p, o.ms[0]);
				break;
			case 'l': case 'M':
			{
				GuardP g = co_await acquire(P, o);
				p.held.push_back({ o.ms, g });
				break;
			}
			case 'y': case 'T':
				if (co_await attempt(P, o)) p.held.push_back({ o.ms, nullptr });
				break;
			case 'i': { p.call('i', o.ms, p.key); bool r = p.m(o.ms[0]).is_locked(); p.ret('i', r); break; }
			case 'w': stray(p, o, addr(o.how + 300), o.how + 300); break;
			case 'z': stray(p, o, librf_root_state(), p.key); break;
			case 'r': if (!p.held.empty()) co_await release(P, p.take(o.how), o.how); break;
			case 'R': while (!p.held.empty()) co_await release(P, p.take(o.how), o.how); break;
			}
		}
		while (!p.held.empty()) { Held h = p.take(1); if (h.g) p.drop_guard(h, 0); }
	}

	void thr(PP P, Script s)
	{
		auto& p = *P;
		void* a = addr(p.key);
		for (auto& o : s)
		{
			if ((o.how & 3) == 3) p.spent.clear();
			switch (o.o)
			{
			case 'L':
				p.call('L', o.ms, p.key);
				p.m(o.ms[0]).lock(a);
				p.ret('L', 1);
				p.held.push_back({ o.ms, nullptr });
				if (o.how & 1) p.held.back().g = wrap(rf::batch_unlock_t<mutex_t>(std::adopt_lock, a, p.m(o.ms[0])));
				break;
			case 'M':
			{
				p.call('M', o.ms, p.key);
				GuardP g;
				if (o.how & 1)
				{
					if (o.ms.size() == 2) mutex_t::lock(rf::adopt_manual_unlock, a, p.m(o.ms[0]), p.m(o.ms[1]));
					else if (o.ms.size() == 3) mutex_t::lock(rf::adopt_manual_unlock, a, p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2]));
					else mutex_t::lock(rf::adopt_manual_unlock, a, p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2]), p.m(o.ms[3]));
				}
				else
				{
					if (o.ms.size() == 2) g = wrap(mutex_t::lock(a, p.m(o.ms[0]), p.m(o.ms[1])));
					else if (o.ms.size() == 3) g = wrap(mutex_t::lock(a, p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2])));
					else g = wrap(mutex_t::lock(a, p.m(o.ms[0]), p.m(o.ms[1]), p.m(o.ms[2]), p.m(o.ms[3])));
				}
				p.ret('M', 1);
				p.held.push_back({ o.ms, g });
				break;
			}
			case 'y': { p.call('y', o.ms, p.key); bool r = p.m(o.ms[0]).try_lock(a); p.ret('y', r); if (r) p.held.push_back({ o.ms, nullptr }); break; }
			case 'F':
			{
				int64_t d = sim::now() + o.dt;
				sim::deadline(d + 1);
				p.call('F', o.ms, p.key, d);
				bool r = with_tp(d, o.how >> 1, [&](auto x) { return p.m(o.ms[0]).try_lock_until(x, a); });
				p.ret('F', r);
				if (r) p.held.push_back({ o.ms, nullptr });
				break;
			}
			case 'f':
			{	// only where the clock stands still while a thread runs
				int64_t d = sim::now() + o.dt;
				sim::deadline(d + 1);
				p.call('F', o.ms, p.key, d);
				bool r = with_dur(o.dt, o.how >> 1, [&](auto x) { return p.m(o.ms[0]).try_lock_for(x, a); });
				p.ret('F', r);
				if (r) p.held.push_back({ o.ms, nullptr });
				break;
			}
			case 'i': { p.call('i', o.ms, p.key); bool r = p.m(o.ms[0]).is_locked(); p.ret('i', r); break; }
			case 'w': stray(p, o, addr(o.how + 300), o.how + 300); break;
			case 'z': stray(p, o, a, p.key); break;
			case 'r': case 'R':
				while (!p.held.empty())
				{
					Held h = p.take(o.how);
					if (h.g) p.drop_guard(h, o.how);
					else if (h.ms.size() == 1) { p.call('u', h.ms, p.key); p.m(h.ms[0]).unlock(a); p.ret('u'); }
					else
					{
						p.call('U', h.ms, p.key);
						if (h.ms.size() == 2) mutex_t::unlock(a, p.m(h.ms[0]), p.m(h.ms[1]));
						else if (h.ms.size() == 3) mutex_t::unlock(a, p.m(h.ms[0]), p.m(h.ms[1]), p.m(h.ms[2]));
						else mutex_t::unlock(a, p.m(h.ms[0]), p.m(h.ms[1]), p.m(h.ms[2]), p.m(h.ms[3]));
						p.ret('U');
					}
					if (o.o == 'r') break;
				}
				break;
			}
		}
		while (!p.held.empty()) { Held h = p.take(1); if (h.g) p.drop_guard(h, 0); }
	}
}

void scenario_main(const char* family)
{
	bool wide = !strcmp(family, "mtx_wide");
	bool multi = !strcmp(family, "mtx_multi");
	int nh, np, nt, nm;
	bool clock = false;
	if (!wide)
	{
		nh = 1 + sim::rnd(3);
		np = 2 + sim::rnd(multi ? 2 : 3);
		nt = sim::chance(2, 5) ? 1 + sim::rnd(2) : 0;
		if (multi && np + nt > 4) nt = 4 - np;
		nm = multi ? 2 + (int)sim::rnd(2) : 1 + (sim::chance(1, 3) ? 1 : 0);
		if (multi && sim::chance(1, 6)) { nm = 4; np = 2; nt = nt > 1 ? 1 : nt; }
		if (!multi && sim::chance(1, 2)) { clock = true; sim::auto_clock(2 + sim::rnd(30)); }
	}
	else { nh = 1; np = 3 + sim::rnd(8); nt = 0; nm = 1 + sim::rnd(3); sim::plain_strategy(); }
	// disciplined: everybody holds at most the result of one locking operation and gives it back
	bool disc = multi || sim::chance(2, 3);
	bool shared_key = sim::chance(1, 5);
	std::vector<int> host, coro, key;
	static const int64_t DT[] = { 0, -5000, 1000, 1000, 2000, 3000, 1500, 1300, 700, -7000000 };
	std::vector<Script> sc(np + nt);
	for (int p = 0; p < np + nt; ++p)
	{
		bool th = p >= np;
		host.push_back(!th ? 1 + (int)sim::rnd(nh) : nh + 1 + p - np);
		coro.push_back(!th);
		key.push_back(!th ? p + 1 : shared_key ? 200 : 100 + p);
		int n = wide ? 6 + sim::rnd(24) : 1 + sim::rnd(4);
		int open = 0;
		int h = host[p];
		for (int i = 0; i < n; ++i)
		{
			Op o{ 'l', { 1 + (int)sim::rnd(nm) }, DT[sim::rnd(sim::chance(1, 3) ? 10 : 6)], (int)sim::rnd(128), (int)(sim::chance(1, 4) ? sim::rnd(3) : 0) };
			if (!th && sim::chance(1, 5)) sc[p].push_back({ 'Y', {} });
			if (!th && nh > 1 && sim::chance(1, 10)) { h = 1 + sim::rnd(nh); sc[p].push_back({ 'v', { h } }); }
			if (open && (disc || sim::chance(1, 2))) { o.o = 'r'; open = disc ? 0 : open - 1; if (disc) o.o = 'R'; sc[p].push_back(o); if (sim::chance(1, 2)) continue; }
			int k = sim::rnd(12);
			if ((multi && k < 7))
			{
				o.o = 'M'; o.ms.clear();
				for (int m = 1; m <= nm; ++m) o.ms.push_back(m);
				for (int m = nm - 1; m > 0; --m) std::swap(o.ms[m], o.ms[sim::rnd(m + 1)]);
				if (nm >= 3 && sim::chance(1, 3)) o.ms.pop_back();
				if (sim::chance(1, 12)) o.ms[1] = o.ms[0];
				++open;
			}
			else if (k == 11 && (!disc || sim::chance(1, 3))) o.o = sim::chance(1, 2) ? 'w' : 'z';
			else if (k == 10) o.o = 'i';
			else if (k >= 8) { o.o = 'y'; ++open; }
			else if (!multi && k >= 5) { o.o = th ? (!clock && sim::chance(1, 2) ? 'f' : 'F') : 'T'; ++open; }
			else if (th) { o.o = disc ? 'L' : 'y'; ++open; }
			else ++open;
			if (o.o == 'w') o.how = sim::rnd(3);
			sc[p].push_back(o);
		}
		if (disc || sim::chance(4, 5)) sc[p].push_back({ 'R', {}, 0, (int)sim::rnd(128), 0 });
	}
	sim::cfg("\"nm\":%d,\"host\":%s,\"coro\":%s", nm, js(host).c_str(), js(coro).c_str());
	bool cross = sim::chance(1, 3);
	Hosts H(nh);
	int late = sim::chance(1, 3) ? 3 : 1000;
	{
		Mxs M = std::make_shared<std::vector<mutex_t>>(nm);
		for (int p = 0; p < np + nt; ++p)
		{
			auto P = std::make_shared<Proc>();
			P->p = p + 1; P->key = key[p]; P->M = M;
			if (p >= np) sim::spawn([P, p, &sc] { thr(P, sc[p]); });
			else if (cross && sim::chance(1, 3)) H[host[p] - 1] + proc(P, sc[p], &H);
			else { int h = host[p] - 1; H.on_start(h, [P, p, h, &sc, &H] { H[h] + proc(P, sc[p], &H); }, sim::chance(1, late) ? 1 : 0); }
		}
	}
	H.run();
	H.finish();
}
