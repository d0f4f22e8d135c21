// Deterministic simulation runtime: API used by the scenario (instrumented) code.
// See DESIGN.md, section "Engine".
#pragma once
#include <cstdint>
#include <cstdarg>
#include <string>
#include <functional>
#include <vector>

namespace sim
{
	// ---- random choices of the scenario (not of the scheduler) ----
	uint64_t rnd();							// 64 bits
	inline uint32_t rnd(uint32_t n) { return n ? static_cast<uint32_t>((rnd() >> 16) % n) : 0; }	// [0,n)
	inline bool chance(uint32_t num, uint32_t den) { return rnd(den) < num; }

	// ---- trace ----
	// appends one event (a JSON array body, without the brackets); a scheduling-atomic action
	void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	void cfg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));	// sets the trace's configuration (JSON object body)
	void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));	// details the specification does not see
	// an event that does not count as progress of a poll; returns a mark, with which it can be taken back while it is the last one
	size_t quiet_ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	bool last_ev(size_t mark);
	void drop_ev(size_t mark);
	// reports a defect seen by the harness itself; the specification has no action for it
	void fault(const char* what);

	// ---- threads ----
	// starts a simulated OS thread; returns its id
	int spawn(std::function<void()> fn);
	int self();								// id of the calling simulated thread (0 = controller)
	// controller only: run the others until nothing can move any more.
	// 0: everything else has ended; 1: quiescent (idle hosts and/or waiters that can not go on)
	int run_until_quiescent();
	bool all_done();						// every spawned thread has ended
	int spinning();							// number of threads that spin without progress (after quiescence)
	int deadlocked();						// number of threads blocked on a lock nobody releases
	void wake_all();						// lets idle hosts poll once more (a flag they test has changed)

	// ---- scheduler hosts ----
	// calls fn (one batch) once; parks the thread when fn returned false until something has changed
	void poll(bool (*fn)(void*), void* ctx);
	void yield_hint();						// harness-side waiting loop

	// ---- virtual clock (microseconds since the start of the execution) ----
	int64_t now();
	int64_t unit();						// microseconds of the library's clock per unit of now(): 1, 1000 or 1000000
	void deadline(int64_t t);				// a time at which something is due
	void add_deadline_rel(int64_t dt);
	bool advance_to_next_deadline();		// false: none left (controller)
	void advance(int64_t dt);
	void hold_clock(bool on);				// no spontaneous clock advance while held (per thread)
	void auto_clock(uint32_t per_mille);	// spontaneous advance to the next deadline: probability per point

	// ---- memory ----
	long live_blocks();						// arena blocks allocated in this execution and not freed
	bool tier_thorough();
	uint64_t seed();
	// no scheduling points while it lives (harness bookkeeping)
	struct atomic_section { atomic_section(); ~atomic_section(); };
	// the exploration strategy of this execution, 0: run every thread as long as possible
	void plain_strategy();					// few preemptions, for wide single-thread scenarios
}

// implemented by each scenario file: one execution
void scenario_main(const char* family);
// what has to exist before the first execution, outside the simulation (optional)
void scenario_init() __attribute__((weak));
