// Scenarios for channel_t (C01, C02).
#include "common.h"

namespace
{
	// ---- element types: an int must survive the round trip
	struct Big
	{
		int v = -7; std::string s; std::vector<int> w;
		Big() = default;
		explicit Big(int x) : v(x), s("value-number-" + std::to_string(x)), w(5, x) {}
	};
	struct MoveOnly
	{
		std::unique_ptr<int> p;
		MoveOnly() = default;
		explicit MoveOnly(int x) : p(std::make_unique<int>(x)) {}
		MoveOnly(MoveOnly&&) = default;
		MoveOnly& operator=(MoveOnly&&) = default;
	};
	template<class T> T enc(int v)
	{
		if constexpr (std::is_same_v<T, std::string>) return "s" + std::to_string(v) + std::string(v % 40, 'x');
		else return T(v);
	}
	template<class T> int dec(const T& t)
	{
		if constexpr (std::is_same_v<T, std::string>)
		{
			if (t.empty() || t[0] != 's') return -1;
			int v = atoi(t.c_str() + 1);
			return t == enc<std::string>(v) ? v : -1;
		}
		else if constexpr (std::is_same_v<T, Big>)
		{
			Big b(t.v);
			return t.s == b.s && t.w == b.w ? t.v : -1;
		}
		else if constexpr (std::is_same_v<T, MoveOnly>) return t.p ? *t.p : -1;
		else return (int)t;
	}

	struct Op { int kind; int v; };		// 0 read, 1 write, 2 yield, 3 read by co_await channel, 4 write by <<, 5 move to host v, 6 read / 7 write inside a nested coroutine
	using Script = std::vector<Op>;

	template<class CH> rf::future_t<typename CH::value_type> read_in(int p, CH ch) { Call(p, "r"); co_return co_await ch.read(); }
	template<class CH, class T> rf::future_t<> write_in(int p, CH ch, T x, int v) { Call(p, "w", v); co_await (ch << std::move(x)); }

	template<class CH> rf::future_t<> proc(int p, CH ch, Script s, Hosts* H)
	{
		using T = typename CH::value_type;
		for (auto& o : s)
		{
			switch (o.kind)
			{
			case 0: { Call(p, "r"); T v = co_await ch.read(); Ret(p, "r", dec(v)); break; }
			case 3: { Call(p, "r"); T v = co_await ch; Ret(p, "r", dec(v)); break; }
			case 1: { T x = enc<T>(o.v); Call(p, "w", o.v); co_await ch.write(std::move(x)); Ret(p, "w"); break; }
			case 4: { T x = enc<T>(o.v); Call(p, "w", o.v); co_await (ch << std::move(x)); Ret(p, "w"); break; }
			case 2: co_await rf::yield(); break;
			case 5: co_await rf::via((*H)[o.v - 1]); sim::ev("\"V\",%d,%d", p, o.v); break;
			case 6: { T v = co_await read_in<CH>(p, ch); Ret(p, "r", dec(v)); break; }
			case 7: { T x = enc<T>(o.v); co_await write_in<CH, T>(p, ch, std::move(x), o.v); Ret(p, "w"); break; }
			}
		}
	}
	// a plain thread: the awaiter's destructor waits
	template<class CH> void thr(int p, CH ch, Script s)
	{
		using T = typename CH::value_type;
		for (auto& o : s)
		{
			switch (o.kind)
			{
			case 1: case 4: case 7: { T x = enc<T>(o.v); Call(p, "w", o.v); { (void)ch.write(std::move(x)); } Ret(p, "w"); break; }
			default: sim::yield_hint(); break;
			}
		}
	}

	template<class CH> void go_all(int cap, int nh, std::vector<Script>& sc, std::vector<int>& host, bool cross, int thr_from)
	{
		Hosts H(nh);
		{
			CH ch(cap);
			if ((int)ch.capacity() != cap) sim::fault("capacity");
			int late = sim::chance(1, 3) ? 3 : 1000;
			for (int p = 0; p < (int)sc.size(); ++p)
			{
				if (p >= thr_from)
					sim::spawn([p, ch, &sc] { thr<CH>(p + 1, ch, sc[p]); });
				else if (cross && sim::chance(1, 3))
					H[host[p] - 1] + proc<CH>(p + 1, ch, sc[p], &H);
				else
					H.on_start(host[p] - 1, [p, ch, &sc, &H, &host] { H[host[p] - 1] + proc<CH>(p + 1, ch, sc[p], &H); }, sim::chance(1, late) ? 1 : 0);
			}
		}
		H.run();
		H.finish();
	}
	template<class T, bool O, bool M> void one(int cap, int nh, std::vector<Script>& sc, std::vector<int>& host, bool cross, int thr_from)
	{
		go_all<rf::channel_t<T, O, M>>(cap, nh, sc, host, cross, thr_from);
	}
}

void scenario_main(const char* family)
{
	bool wide = !strcmp(family, "chan_wide");
	bool moves = false;
	int nh, np, nt = 0, cap;
	std::vector<Script> sc;
	std::vector<int> host;
	if (!wide)
	{
		nh = 1 + sim::rnd(3);
		np = 2 + sim::rnd(3);
		static const int caps[] = { 0, 0, 1, 1, 1, 2, 2, 3, 5 };
		cap = caps[sim::rnd(9)];
		nt = sim::chance(1, 4) ? 1 : 0;
		moves = nh > 1 && sim::chance(1, 3);
	}
	else
	{
		nh = 1;
		np = 2 + sim::rnd(8);
		static const int caps[] = { 0, 1, 2, 7, 16, 31, 64, 100, 255, 300 };
		cap = caps[sim::rnd(10)];
		sim::plain_strategy();
	}
	int v = 1;
	sc.resize(np + nt);
	int style = sim::rnd(3);		// 0 mixed, 1 producers/consumers, 2 bursts
	if (nt) style = 1;
	int reads = 0, writes = 0;
	for (int p = 0; p < np + nt; ++p)
	{
		host.push_back(p < np ? 1 + (int)sim::rnd(nh) : nh + 1 + p - np);
		int n = wide ? 5 + sim::rnd(60) : 1 + sim::rnd(4);
		bool prod = sim::chance(1, 2);
		if (nt && p == 0) prod = false;
		for (int i = 0; i < n; ++i)
		{
			bool w;
			if (p >= np) w = true;
			else if (style == 0) w = sim::chance(1, 2);
			else if (style == 1) w = prod;
			else w = (i / 3 + p) & 1;
			if (sim::chance(1, 6)) sc[p].push_back({ 2, 0 });
			if (p < np && moves && sim::chance(1, 3)) sc[p].push_back({ 5, 1 + (int)sim::rnd(nh) });
			if (w) { sc[p].push_back({ sim::chance(1, 6) ? 7 : sim::chance(1, 2) ? 1 : 4, v++ }); ++writes; }
			else { sc[p].push_back({ sim::chance(1, 6) ? 6 : sim::chance(1, 2) ? 0 : 3, 0 }); ++reads; }
		}
	}
	if (nt)
	{	// a thread spins until its writes are done: leave it enough readers
		int extra = writes - reads;
		for (int i = 0; i < extra; ++i) sc[0].push_back({ 0, 0 });
	}
	if (wide && sim::chance(1, 2))
	{	// balance, so that long histories wrap the buffer several times
		int d = writes - reads;
		for (int i = 0; i < d; ++i) sc[i % np].push_back({ 0, 0 });
		for (int i = 0; i < -d; ++i) sc[i % np].push_back({ 1, v++ });
	}
	int ty = sim::rnd(8);
	std::vector<int> coro;
	for (int p = 0; p < np + nt; ++p) coro.push_back(p < np ? 1 : 0);
	sim::cfg("\"cap\":%d,\"host\":%s,\"coro\":%s", cap, js(host).c_str(), js(coro).c_str());
	sim::note("\"ty\":%d", ty);
	bool cross = sim::chance(1, 3);
	switch (ty)
	{
	case 0: one<int, false, false>(cap, nh, sc, host, cross, np); break;
	case 1: one<int, true, false>(cap, nh, sc, host, cross, np); break;
	case 2: one<std::string, true, false>(cap, nh, sc, host, cross, np); break;
	case 3: one<std::string, false, true>(cap, nh, sc, host, cross, np); break;
	case 4: one<Big, true, true>(cap, nh, sc, host, cross, np); break;
	case 5: one<MoveOnly, true, false>(cap, nh, sc, host, cross, np); break;
	case 6: one<MoveOnly, false, false>(cap, nh, sc, host, cross, np); break;
	default: one<int, false, true>(cap, nh, sc, host, cross, np); break;
	}
}
