// Shared by the scenario files: scheduler hosts, launching, quiescence loop.
#pragma once
#include "sim.h"
#include "librf/librf.h"
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <cstring>

namespace rf = librf;
using namespace std::chrono;

inline bool host_poll_fn(void* p) { return static_cast<rf::scheduler_t*>(p)->run_one_batch(); }

struct Hosts
{
	struct H
	{
		rf::scheduler_t* sch = nullptr;
		std::vector<std::pair<int, std::function<void()>>> start;	// run in the host's thread, at the beginning of a phase
		int tid = -1;
	};
	std::vector<std::unique_ptr<H>> h;
	bool quit = false;
	bool phase_first = false;
	int phase = -1, last_phase = 0;

	explicit Hosts(int n)
	{
		for (int i = 0; i < n; ++i)
		{
			h.push_back(std::make_unique<H>());
			H* me = h.back().get();
			me->tid = sim::spawn([this, me]
				{
					rf::local_scheduler_t ls;
					me->sch = rf::this_scheduler();
					while (phase < 0) { sim::poll([](void*) { return false; }, nullptr); }
					int done = -1;
					while (!quit)
					{
						if (done < phase)
						{
							++done;
							for (size_t i = 0; i < me->start.size(); ++i) if (me->start[i].first == done) me->start[i].second();
						}
						else sim::poll(host_poll_fn, me->sch);
					}
					me->start.clear();
					me->sch = nullptr;
				});
		}
		sim::run_until_quiescent();		// every host has its scheduler
	}
	rf::scheduler_t& operator[](int i) { return *h[i]->sch; }
	int size() const { return (int)h.size(); }
	// f runs in the thread of host i; phase k begins when everything started in the earlier ones has come to rest
	void on_start(int i, std::function<void()> f, int ph = 0)
	{
		if (ph > last_phase) last_phase = ph;
		h[i]->start.emplace_back(ph, std::move(f));
	}
	// runs everything; emits ["Q"] at each quiescence, ["A",t] when the clock moves
	void run()
	{
		phase = 0;
		sim::wake_all();
		for (;;)
		{
			sim::run_until_quiescent();
			if (sim::deadlocked()) sim::fault("deadlock");
			sim::ev("\"Q\"");
			if (phase < last_phase && (phase_first || sim::chance(1, 2))) { ++phase; sim::wake_all(); continue; }
			if (sim::advance_to_next_deadline()) continue;
			if (phase >= last_phase) break;
			++phase;
			sim::wake_all();
		}
	}
	void finish()
	{
		quit = true;
		sim::wake_all();
		sim::run_until_quiescent();
		if (sim::deadlocked()) sim::fault("deadlock");
	}
};

// f called with a duration of dt microseconds, of one type or another
template<class F> inline auto with_dur(int64_t dt, int how, F&& f)
{
	dt *= sim::unit();
	switch (how & 3)
	{
	case 1: return f(nanoseconds(dt * 1000));
	case 2: if (dt % 1000 == 0) return f(milliseconds(dt / 1000)); break;
	case 3: if (dt % 100 == 0) return f(duration<long, std::ratio<1, 10000>>(dt / 100)); break;
	}
	return f(microseconds(dt));
}
// an absolute time point, of one type or another
template<class F> inline auto with_tp(int64_t us, int how, F&& f)
{
	const int64_t t = 1700000000ll * 1000000ll + us * sim::unit();
	switch (how & 3)
	{
	case 1: return f(time_point<system_clock, microseconds>(microseconds(t)));
	case 2: if (t % 1000 == 0) return f(time_point<system_clock, milliseconds>(milliseconds(t / 1000))); break;
	case 3: if (t % 100 == 0) return f(time_point<system_clock, duration<long, std::ratio<1, 10000>>>(duration<long, std::ratio<1, 10000>>(t / 100))); break;
	}
	return f(system_clock::time_point(microseconds(t)));
}
// a list of ints as JSON
inline std::string js(const std::vector<int>& v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); }
	return s + "]";
}
inline void E(const char* k, int p, const char* op, long a) { sim::ev("\"%s\",%d,\"%s\",%ld", k, p, op, a); }
inline void Call(int p, const char* op, long a = 0) { E("C", p, op, a); }
inline void Ret(int p, const char* op, long a = 0) { E("R", p, op, a); }
