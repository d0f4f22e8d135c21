// Scenarios for event_t (E01-E04).
#include "common.h"

namespace
{
	struct Op { char o; std::vector<int> es; int64_t dt; int how; };	// o: w t W T s a x, y = yield, v = move to host es[0]
	using Script = std::vector<Op>;
	using Evs = std::shared_ptr<std::vector<rf::event_t>>;

	void call(int p, const Op& o, int64_t d)
	{
		sim::ev("\"C\",%d,\"%c\",%s,%lld", p, o.o, js(o.es).c_str(), (long long)d);
	}
	void ret(int p, const Op& o, int r) { sim::ev("\"R\",%d,\"%c\",%d", p, o.o, r); }

	void plain_op(int p, Evs E, const Op& o)
	{
		call(p, o, 0);
		rf::event_t& e = (*E)[o.es[0] - 1];
		if (o.o == 's') e.signal();
		else if (o.o == 'a') e.signal_all();
		else e.reset();
		ret(p, o, 0);
	}

	// the wait inside a nested coroutine
	rf::future_t<bool> wait_in(int p, rf::event_t e, Op o) { call(p, o, 0); co_return co_await e; }
	rf::future_t<bool> timed_in(int p, rf::event_t e, Op o)
	{
		sim::hold_clock(true);
		int64_t d = sim::now() + o.dt;
		sim::deadline(d);
		call(p, o, d);
		auto a = e.wait_for(microseconds(o.dt * sim::unit()));
		sim::hold_clock(false);
		bool r = co_await a;
		co_return r;
	}

	rf::future_t<> proc(int p, Evs E, Script s, Hosts* H)
	{
		for (auto& o : s)
		{
			switch (o.o)
			{
			case 'y': co_await rf::yield(); break;
			case 'v': co_await rf::via((*H)[o.es[0] - 1]); sim::ev("\"V\",%d,%d", p, o.es[0]); break;
			case 's': case 'a': case 'x': plain_op(p, E, o); break;
			case 'w':
			{
				rf::event_t e = (*E)[o.es[0] - 1];
				bool r;
				if (o.how == 2) { r = co_await wait_in(p, e, o); ret(p, o, r); break; }
				call(p, o, 0);
				if (o.how & 1) r = co_await e; else r = co_await e.wait();
				ret(p, o, r);
				break;
			}
			case 't':
			{
				rf::event_t e = (*E)[o.es[0] - 1];
				bool r;
				if (o.how == 2) { r = co_await timed_in(p, e, o); ret(p, o, r); break; }
				sim::hold_clock(true);
				int64_t d = sim::now() + o.dt;
				sim::deadline(d);
				call(p, o, d);
				if (o.how & 1) { auto a = with_dur(o.dt, o.how >> 1, [&](auto x) { return e.wait_for(x); }); sim::hold_clock(false); r = co_await a; }
				else { auto a = with_tp(d, o.how >> 1, [&](auto x) { return e.wait_until(x); }); sim::hold_clock(false); r = co_await a; }
				ret(p, o, r);
				break;
			}
			case 'W': case 'T':
			{
				std::vector<rf::event_t> v;
				for (int i : o.es) v.push_back((*E)[i - 1]);
				if (o.o == 'W')
				{
					call(p, o, 0);
					bool r;
					if (o.how & 1) r = co_await rf::event_t::wait_all(v);
					else r = co_await rf::event_t::wait_all(v.begin(), v.end());
					ret(p, o, r);
				}
				else
				{
					sim::hold_clock(true);
					int64_t d = sim::now() + o.dt;
					sim::deadline(d);
					call(p, o, d);
					bool r;
					if (o.how & 1) { auto a = with_dur(o.dt, o.how >> 1, [&](auto x) { return rf::event_t::wait_all_for(x, v); }); sim::hold_clock(false); r = co_await a; }
					else { auto a = with_dur(o.dt, o.how >> 1, [&](auto x) { return rf::event_t::wait_all_for(x, v.begin(), v.end()); }); sim::hold_clock(false); r = co_await a; }
					ret(p, o, r);
				}
				break;
			}
			}
		}
	}
	void thr(int p, Evs E, Script s) { for (auto& o : s) plain_op(p, E, o); }
}

void scenario_main(const char* family)
{
	bool wide = !strcmp(family, "ev_wide");
	bool all = !strcmp(family, "ev_all");
	int nh, np, nt, ne;
	if (!wide)
	{
		nh = 1 + sim::rnd(3);
		np = 2 + sim::rnd(3);
		nt = sim::rnd(3);
		ne = all ? 2 + sim::rnd(2) : 1 + (sim::chance(1, 4) ? 1 : 0);
		if (sim::chance(1, 2)) sim::auto_clock(2 + sim::rnd(30));
	}
	else { nh = 1; np = 3 + sim::rnd(10); nt = 0; ne = 1 + sim::rnd(5); sim::plain_strategy(); }
	std::vector<int> init, host;
	for (int i = 0; i < ne; ++i) init.push_back(sim::chance(1, 4));
	static const int64_t DT[] = { 0, -5000, 1000, 1000, 2000, 3000, 1500, 1300, 700, -7000000, 5000000 };
	auto dts = [&] { return DT[sim::rnd(sim::chance(1, 3) ? 11 : 6)]; };
	auto subset = [&] {
		std::vector<int> v;
		for (int i = 1; i <= ne; ++i) if (sim::chance(3, 4)) v.push_back(i);
		for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[sim::rnd(i + 1)]);
		return v;
	};
	std::vector<Script> sc(np + nt);
	bool moves = !wide && nh > 1 && sim::chance(1, 3);
	bool resets = !all && sim::chance(1, 6);
	for (int p = 0; p < np + nt; ++p)
	{
		host.push_back(p < np ? 1 + (int)sim::rnd(nh) : nh + 1 + p - np);
		int n = wide ? 4 + sim::rnd(24) : 1 + sim::rnd(4);
		int bias = sim::rnd(3);		// 0 mixed, 1 waits, 2 signals
		for (int i = 0; i < n; ++i)
		{
			bool w = p < np && (bias == 0 ? sim::chance(1, 2) : bias == 1 ? sim::chance(4, 5) : sim::chance(1, 4));
			Op o{ 's', {}, 0, (int)sim::rnd(8) };
			if (p < np && sim::chance(1, 6)) sc[p].push_back({ 'y', {}, 0, 0 });
			if (p < np && moves && sim::chance(1, 3)) sc[p].push_back({ 'v', { 1 + (int)sim::rnd(nh) }, 0, 0 });
			if (w)
			{
				int k = sim::rnd(10);
				if (all ? k < 7 : (wide && k < 3)) { o.o = sim::chance(1, 2) ? 'W' : 'T'; o.es = subset(); o.dt = dts(); }
				else if (k & 1) { o.o = 't'; o.es = { 1 + (int)sim::rnd(ne) }; o.dt = dts(); }
				else { o.o = 'w'; o.es = { 1 + (int)sim::rnd(ne) }; }
			}
			else
			{
				int k = sim::rnd(12);
				o.o = k < 8 ? 's' : k < 11 ? 'a' : 'x';
				if (resets) o.o = k < 4 ? 's' : k < 5 ? 'a' : 'x';
				o.es = { 1 + (int)sim::rnd(ne) };
			}
			sc[p].push_back(o);
		}
	}
	if (!strcmp(family, "ev_reset"))
	{	// resets racing with waits
		nh = 2; np = 2; nt = 2; ne = 2;
		init = { 1, 0 }; host = { 1, 2, 3, 4 };
		sc.assign(4, {});
		sc[0] = { { sim::chance(1, 2) ? 'W' : 'w', { 1 }, 0, 0 }, { 't', { 1 }, 2000, 0 } };
		sc[1] = { { 't', { 2 }, 1000, 0 }, { 's', { 1 }, 0, 0 } };
		for (int p = 2; p < 4; ++p) for (int i = 0, n = 1 + sim::rnd(2); i < n; ++i) sc[p].push_back({ sim::chance(1, 5) ? 's' : 'x', { 1 }, 0, 0 });
	}
	if (wide && sim::chance(1, 4))
	{	// many remembered signals, or many waits at once
		ne = 1; init = { 0 };
		static const int K[] = { 17, 33, 65, 129, 257 };
		int k = K[sim::rnd(5)] + (int)sim::rnd(3) - 1;
		bool signals = sim::chance(1, 2);
		if (!signals) k = 10 + k % 50;
		np = signals ? 2 : k + 1;
		host.assign(np, 1);
		sc.assign(np, {});
		if (signals)
		{
			for (int i = 0; i < k; ++i) sc[0].push_back({ 's', { 1 }, 0, 0 });
			for (int i = 0; i <= k; ++i) sc[1].push_back({ sim::chance(1, 8) ? 't' : 'w', { 1 }, 1000, 0 });
			if (sim::chance(1, 3)) sc[0].push_back({ sim::chance(1, 2) ? 'a' : 'x', { 1 }, 0, 0 });
		}
		else
		{
			for (int p = 1; p < np; ++p) sc[p].push_back({ sim::chance(1, 8) ? 't' : 'w', { 1 }, 1000, 0 });
			sc[0].push_back({ 'y', {}, 0, 0 });
			if (sim::chance(1, 2)) sc[0].push_back({ 'a', { 1 }, 0, 0 });
			else for (int i = 0, n = (int)sim::rnd(2 * k); i < n; ++i) sc[0].push_back({ 's', { 1 }, 0, 0 });
		}
	}
	sim::cfg("\"init\":%s,\"host\":%s", js(init).c_str(), js(host).c_str());
	bool cross = sim::chance(1, 3);
	Hosts H(nh);
	int late = sim::chance(1, 3) ? 3 : 1000;
	{
		Evs E = std::make_shared<std::vector<rf::event_t>>();
		for (int i : init) E->push_back(i ? rf::event_t(true) : E->size() % 2 ? rf::event_t() : rf::event_t(false));
		for (int p = 0; p < np + nt; ++p)
		{
			if (p >= np) sim::spawn([p, E, &sc] { thr(p + 1, E, sc[p]); });
			else if (cross && sim::chance(1, 3)) H[host[p] - 1] + proc(p + 1, E, sc[p], &H);
			else H.on_start(host[p] - 1, [p, E, &sc, &H, &host] { H[host[p] - 1] + proc(p + 1, E, sc[p], &H); }, sim::chance(1, late) ? 1 : 0);
		}
	}
	H.run();
	H.finish();
}
