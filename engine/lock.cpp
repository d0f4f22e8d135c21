// Scenarios for spinlock and batch_lock_t (L01).
#include "common.h"
#include <deque>

namespace
{
	using rf::spinlock;
	using Ref = std::reference_wrapper<spinlock>;
	struct Op { char o; std::vector<int> ms; int how = 0; };
	using Script = std::vector<Op>;
	void call(int p, char o, const std::vector<int>& ms) { sim::ev("\"C\",%d,\"%c\",%s", p, o, js(ms).c_str()); }
	void ret(int p, char o, int r = 0) { sim::ev("\"R\",%d,\"%c\",%d", p, o, r); }

	using RefBatch = rf::batch_lock_t<Ref>;
	using RefDequeBatch = rf::batch_lock_t<Ref, std::deque<Ref>>;
	using VecBatch = rf::batch_lock_t<spinlock, std::vector<spinlock>>;

	template<class B> void let_go(int p, const Op& o, std::unique_ptr<B> b, sim::atomic_section* = nullptr)
	{
		if (o.how & 2) b = std::make_unique<B>(std::move(*b));
		if (o.how & 4) { B t(std::move(*b)); auto n = std::make_unique<B>(std::move(t)); b = std::move(n); }
		if (sim::chance(1, 2)) std::this_thread::yield();
		call(p, 'U', o.ms);
		if (o.how & 8)
		{
			b->unlock();
			ret(p, 'U');
			if (o.how & 16) b->unlock();		// nothing left to release
			if (sim::chance(1, 2)) std::this_thread::yield();
			b.reset();
		}
		else { b.reset(); ret(p, 'U'); }
	}

	void thr(int p, std::vector<spinlock>& L, const Script& s, bool whole)
	{
		std::vector<int> held;
		for (auto& o : s)
		{
			switch (o.o)
			{
			case 'L': call(p, 'L', o.ms); L[o.ms[0] - 1].lock(); ret(p, 'L', 1); held.push_back(o.ms[0]); break;
			case 'g':
			{
				call(p, 'L', o.ms);
				{
					rf::scoped_lock<spinlock> g(L[o.ms[0] - 1]);
					ret(p, 'L', 1);
					if (sim::chance(1, 2)) std::this_thread::yield();
					call(p, 'u', o.ms);
				}
				ret(p, 'u');
				break;
			}
			case 'G':
			{	// the standard algorithm over librf's locks
				call(p, 'M', o.ms);
				{
					rf::scoped_lock<spinlock, spinlock> g(L[o.ms[0] - 1], L[o.ms[1] - 1]);
					ret(p, 'M', 1);
					if (sim::chance(1, 2)) std::this_thread::yield();
					call(p, 'U', o.ms);
				}
				ret(p, 'U');
				break;
			}
			case 'y':
			{
				call(p, 'y', o.ms);
				bool r = L[o.ms[0] - 1].try_lock();
				ret(p, 'y', r);
				if (r) held.push_back(o.ms[0]);
				break;
			}
			case 'R':
				while (!held.empty())
				{
					size_t i = o.how % held.size();
					int m = held[i];
					held.erase(held.begin() + i);
					call(p, 'u', { m });
					L[m - 1].unlock();
					ret(p, 'u');
				}
				break;
			case 'M':
				if (whole)
				{
					call(p, 'M', o.ms);
					auto b = std::make_unique<VecBatch>(L);
					ret(p, 'M', 1);
					let_go(p, o, std::move(b));
				}
				else if (o.how & 1)
				{
					std::vector<Ref> c;
					for (int m : o.ms) c.push_back(L[m - 1]);
					call(p, 'M', o.ms);
					auto b = std::make_unique<RefBatch>(c);
					ret(p, 'M', 1);
					let_go(p, o, std::move(b));
				}
				else
				{
					std::deque<Ref> c;
					for (int m : o.ms) c.push_back(L[m - 1]);
					call(p, 'M', o.ms);
					auto b = std::make_unique<RefDequeBatch>(c);
					ret(p, 'M', 1);
					let_go(p, o, std::move(b));
				}
				break;
			case 'A':
			{	// locks that are already held, adopted
				std::vector<Ref> c;
				std::vector<int> got;
				for (int m : o.ms)
				{
					call(p, 'y', { m });
					bool r = L[m - 1].try_lock();
					ret(p, 'y', r);
					if (!r) break;
					got.push_back(m);
					c.push_back(L[m - 1]);
				}
				Op a{ 'M', got, o.how };
				let_go(p, a, std::make_unique<RefBatch>(std::adopt_lock, c));
				break;
			}
			}
		}
	}
}

void scenario_main(const char* family)
{
	bool wide = !strcmp(family, "lock_wide");
	int nt = wide ? 2 : 2 + sim::rnd(3), nl = wide ? 4 + sim::rnd(2) : 1 + sim::rnd(3);
	bool whole = sim::chance(1, 6);
	std::vector<Script> sc(nt);
	for (int p = 0; p < nt; ++p)
	{
		int n = 1 + sim::rnd(wide ? 3 : 4);
		for (int i = 0; i < n; ++i)
		{
			Op o{ 'L', { 1 + (int)sim::rnd(nl) }, (int)sim::rnd(32) };
			int k = sim::rnd(8);
			if (k < 4 || wide)
			{
				o.ms.clear();
				for (int m = 1; m <= nl; ++m) if (whole || sim::chance(5, 6)) o.ms.push_back(m);
				if (!whole) for (int m = (int)o.ms.size() - 1; m > 0; --m) std::swap(o.ms[m], o.ms[sim::rnd(m + 1)]);
				o.o = sim::chance(1, 6) && !o.ms.empty() ? 'A' : 'M';
				if (o.ms.size() == 2 && sim::chance(1, 5)) o.o = 'G';
				sc[p].push_back(o);
				continue;
			}
			if (k == 4)
			{
				for (int j = 0, m = 1 + sim::rnd(3); j < m; ++j) sc[p].push_back({ 'y', { 1 + (int)sim::rnd(nl) }, 0 });
			}
			else if (k == 5) { o.o = 'g'; sc[p].push_back(o); continue; }
			else { sc[p].push_back(o); if (sim::chance(1, 2)) sc[p].push_back({ 'y', { 1 + (int)sim::rnd(nl) }, 0 }); }
			sc[p].push_back({ 'R', {}, (int)sim::rnd(8) });
		}
	}
	sim::cfg("\"nl\":%d,\"np\":%d", nl, nt);
	std::vector<spinlock> L(nl);
	for (int p = 0; p < nt; ++p) sim::spawn([p, &L, &sc, whole] { thr(p + 1, L, sc[p], whole); });
	sim::run_until_quiescent();
	if (sim::deadlocked()) sim::fault("deadlock");
	sim::ev("\"Q\"");
}
