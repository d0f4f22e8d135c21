// Deterministic simulation runtime (compiled WITHOUT instrumentation).
//
// librf and the scenarios are compiled with -fsanitize=thread but linked against this file instead of the
// ThreadSanitizer runtime: every atomic operation and every plain access of shared memory calls back here.
// Exactly one simulated OS thread runs at a time; this file decides which, from the seed of the execution.
#include "sim.h"
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cerrno>
#include <new>
#include <unordered_set>
#include <exception>
#include <typeinfo>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>

namespace
{
	// ------------------------------------------------------------------ random numbers
	struct Rng
	{
		uint64_t s = 1;
		uint64_t next()
		{
			uint64_t z = (s += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 20) % n) : 0; }
		double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	};
	uint64_t mix(uint64_t a, uint64_t b)
	{
		Rng r; r.s = a * 0x9e3779b97f4a7c15ull + b; r.next(); return r.next() ^ (b << 1);
	}

	// ------------------------------------------------------------------ threads
	enum St { UNUSED, RUN, SPINBLK, MTXBLK, IDLE, DONE };
	struct Th
	{
		int id = 0;
		St st = UNUSED;
		std::atomic<int> go{ 0 };
		std::function<void()>* fn = nullptr;
		pthread_t pt{};
		bool started = false;
		// blocked on
		const void* waddr = nullptr; int wsize = 0; uint64_t wval = 0;
		// single-location spin detection
		const void* la = nullptr; uint64_t lv = 0; int lrep = 0; int chances = 0;
		// progress accounting
		uint64_t seen = 0;			// IDLE: activity at the beginning of the empty poll
		uint64_t evseen = 0; uint64_t cnt = 0;	// own points since the last event of anybody
		uint64_t streak = 0;
		bool yielded = false;
		bool quiet = false;
		int hold = 0;
		int atomic_depth = 0;
		int prio = 0;
		char* stk_lo = nullptr; char* stk_hi = nullptr;
	};
	const int MAXTH = 24;
	Th th[MAXTH];
	int nth = 1;						// threads of this execution, 0 is the controller
	thread_local Th* cur = nullptr;
	thread_local int in_rt = 0;			// runtime code: no interposition
	bool in_exec = false;

	struct Rt { Rt() { ++in_rt; } ~Rt() { --in_rt; } };

	// ------------------------------------------------------------------ execution state
	Rng srng, drng;						// strategy, data
	uint64_t g_seed;
	uint64_t evno, activity, points, memops;
	uint64_t total_points, total_switches, total_exec, total_unique, total_events;
	bool thorough = false;
	bool repl = false;					// print the trace of each execution to stderr

	enum Mode { RANDOM, PCT, BOUND, COARSE };
	Mode mode; double pswitch; bool plain_points, ev_points;
	uint64_t chg[8]; int nchg;
	uint32_t auto_pm = 0;
	const uint64_t EXHAUST = 20000;

	// ------------------------------------------------------------------ trace
	char tbuf[8 << 20]; size_t tlen; bool toverflow;
	char cbuf[1 << 16]; size_t clen;
	char nbuf[1 << 16]; size_t nlen;	// not part of the trace's identity
	long stride_of;
	const int SCHEDULES = 16;
	bool quiet_line;
	int outfd = -1;
	long cur_index;
	std::unordered_set<uint64_t>* uniq;

	// ------------------------------------------------------------------ clock
	int64_t vnow, tick = 1;
	const int64_t BASE = 1700000000ll * 1000000ll;		// microseconds
	int64_t dl[4096]; int ndl;

	// ------------------------------------------------------------------ shared locations of a scenario
	// Each scenario is executed under several schedules.  The first one learns which locations are used by more
	// than one thread and written; the others decide at those locations only (most of the time).
	struct HotEnt { uint64_t k; uint32_t ep; uint8_t first; bool multi, wr; };
	HotEnt hot[1 << 14];
	uint32_t hot_epoch = 1; bool learning; bool use_hot; uint64_t hot_len, hot_cnt; bool single;
	inline HotEnt* hot_find(uint64_t k, bool add)
	{
		size_t h = (k * 0x9e3779b97f4a7c15ull) >> 50;
		for (int i = 0; i < 32; ++i, h = (h + 1) & ((1 << 14) - 1))
		{
			HotEnt& e = hot[h];
			if (e.ep == hot_epoch) { if (e.k == k) return &e; continue; }
			if (!add) return nullptr;
			e.ep = hot_epoch; e.k = k; e.first = 0xff; e.multi = e.wr = false;
			return &e;
		}
		return nullptr;
	}
	inline void learn(const void* a, int tid, bool w)
	{
		HotEnt* e = hot_find((uint64_t)a >> 3, true);
		if (!e) return;
		if (e->first == 0xff) e->first = (uint8_t)tid; else if (e->first != tid) e->multi = true;
		e->wr |= w;
	}
	inline bool is_hot(const void* a)
	{
		HotEnt* e = hot_find((uint64_t)a >> 3, false);
		return e && e->multi && e->wr;
	}

	// ------------------------------------------------------------------ memory
	char* const ARENA = reinterpret_cast<char*>(0x600000000000ull);
	const size_t ARENA_SZ = 512ull << 20;
	const size_t G = 16;
	unsigned char* shadow;
	const int REGIONS = 32;				// one per thread: addresses do not depend on the schedule much
	const size_t REGION_SZ = (512ull << 20) / REGIONS;
	size_t abrk[REGIONS]; long live;

	void write_all(int fd, const char* p, size_t n)
	{
		while (n) { ssize_t k = ::write(fd, p, n); if (k <= 0) { if (errno == EINTR) continue; return; } p += k; n -= k; }
	}
	uint64_t fnv(const char* p, size_t n, uint64_t h = 1469598103934665603ull)
	{
		for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
		return h;
	}
	void emit_line(bool force)
	{
		Rt rt;
		if (quiet_line) return;
		++total_exec;
		if (toverflow) { static const char m[] = "trace overflow\n"; write_all(2, tbuf, 3000); write_all(2, m, sizeof m - 1); _exit(9); }
		uint64_t h = fnv(tbuf, tlen, fnv(cbuf, clen));
		if (!force) { if (!uniq->insert(h).second) return; }
		++total_unique;
		char head[128];
		int k = snprintf(head, sizeof head, "{\"i\":%ld,\"note\":{", cur_index);
		// one buffer, one write
		static char line[(8 << 20) + (1 << 18)];
		size_t n = 0;
		memcpy(line + n, head, k); n += k;
		memcpy(line + n, nbuf, nlen); n += nlen;
		memcpy(line + n, "},\"cfg\":{", 9); n += 9;
		memcpy(line + n, cbuf, clen); n += clen;
		memcpy(line + n, "},\"ev\":[", 8); n += 8;
		memcpy(line + n, tbuf, tlen); n += tlen;
		memcpy(line + n, "]}\n", 3); n += 3;
		write_all(outfd, line, n);
		if (repl) write_all(2, line, n);
	}
	void stats(const char* how)
	{
		char b[400];
		int k = snprintf(b, sizeof b, "{\"end\":\"%s\",\"next\":%ld,\"exec\":%lu,\"unique\":%lu,\"points\":%lu,\"switches\":%lu,\"events\":%lu}\n",
			how, cur_index / SCHEDULES + stride_of, total_exec, total_unique, total_points + points, total_switches, total_events);
		write_all(1, b, k);
	}
	void vev(const char* fmt, va_list ap)
	{
		if (tlen > sizeof tbuf - 4096) { toverflow = true; return; }
		if (tlen) tbuf[tlen++] = ',';
		tbuf[tlen++] = '[';
		tlen += vsnprintf(tbuf + tlen, 2048, fmt, ap);
		tbuf[tlen++] = ']';
		++evno; ++activity; ++total_events;
		if (cur) cur->quiet = false;
	}
	[[noreturn]] void die_fault(const char* what)
	{
		++in_rt;
		if (tlen < sizeof tbuf - 4096)
		{
			if (tlen) tbuf[tlen++] = ',';
			tlen += snprintf(tbuf + tlen, 1024, "[\"F\",%d,\"%s\"]", cur ? cur->id : -1, what);
		}
		emit_line(true);
		stats("fault");
		_exit(3);
	}
	void on_signal(int sig)
	{
		const char* n = sig == SIGSEGV ? "crash-segv" : sig == SIGABRT ? "abort" : sig == SIGBUS ? "crash-bus" : sig == SIGFPE ? "crash-fpe" : sig == SIGXCPU ? "hang" : "crash-ill";
		if (!in_exec) { static const char m[] = "runtime crash outside an execution\n"; write_all(2, m, sizeof m - 1); _exit(10); }
		die_fault(n);
	}

	// ------------------------------------------------------------------ baton
	void fwait(Th* t)
	{
		while (t->go.load(std::memory_order_acquire) == 0)
			syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
		t->go.store(0, std::memory_order_release);
	}
	void fpost(Th* t)
	{
		t->go.store(1, std::memory_order_release);
		syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	}
	uint64_t peek(const void* a, int n)
	{
		switch (n)
		{
		case 1: return *(const volatile uint8_t*)a;
		case 2: return *(const volatile uint16_t*)a;
		case 4: return *(const volatile uint32_t*)a;
		default: return *(const volatile uint64_t*)a;
		}
	}
	// owners of intercepted pthread mutexes
	struct Mx { const void* m; int owner; int depth; };
	Mx mx[1024];
	Mx* mxslot(const void* m)
	{
		size_t h = (reinterpret_cast<uintptr_t>(m) >> 3) & 1023;
		for (;;)
		{
			if (mx[h].m == m) return &mx[h];
			if (mx[h].m == nullptr) { mx[h].m = m; mx[h].owner = -1; mx[h].depth = 0; return &mx[h]; }
			h = (h + 1) & 1023;
		}
	}
	bool runnable(Th* t)
	{
		switch (t->st)
		{
		case RUN: return true;
		case SPINBLK: return peek(t->waddr, t->wsize) != t->wval;
		case MTXBLK: return mxslot(t->waddr)->owner < 0;
		case IDLE: return activity > t->seen;
		default: return false;
		}
	}
	uint64_t cnt_of(Th* t) { return t->evseen == evno ? t->cnt : 0; }

	// next thread to run when the current one gives up the processor (self allowed when it is RUN); null: quiescent
	Th* pick(bool exclude_self)
	{
		Th* c[MAXTH]; int n = 0;
		for (int pass = 0; pass < 2 && n == 0; ++pass)
		{
			for (int i = 1; i < nth; ++i)
			{
				Th* t = &th[i];
				if (exclude_self && t == cur && pass == 0) continue;
				if (!runnable(t) || cnt_of(t) > EXHAUST) continue;
				if (pass == 0 && t->yielded) continue;
				c[n++] = t;
			}
			if (n == 0 && pass == 0)
				for (int i = 1; i < nth; ++i) th[i].yielded = false;
		}
		if (n == 0)
		{	// a thread that spins without progress may hold what a blocked one waits for
			bool blocked = false;
			for (int i = 1; i < nth; ++i) if (th[i].st == SPINBLK || th[i].st == MTXBLK) blocked = true;
			// or have given up just before the others, without an event, did what it waits for
			const uint64_t more = blocked ? 4 * EXHAUST : EXHAUST + 3000;
			for (int i = 1; i < nth; ++i)
				if (runnable(&th[i]) && cnt_of(&th[i]) <= more) c[n++] = &th[i];
			if (n == 0 && !blocked) return nullptr;
			// reading one location again and again need not be waiting for it
			if (n == 0)
				for (int i = 1; i < nth && n == 0; ++i)
					if (th[i].st == SPINBLK && th[i].chances < 40) { ++th[i].chances; c[n++] = &th[i]; }
			if (n == 0) return nullptr;
			return c[srng.below(n)];
		}
		if (mode == PCT)
		{
			Th* b = c[0];
			for (int i = 1; i < n; ++i) if (c[i]->prio > b->prio) b = c[i];
			return b;
		}
		return c[srng.below(n)];
	}
	void transfer(Th* to)
	{
		Th* me = cur;
		if (to == me) { if (me->st != DONE) me->st = RUN; return; }
		++total_switches;
		if (to->st == SPINBLK || to->st == MTXBLK || to->st == IDLE) to->st = RUN;
		me->streak = 0;
		fpost(to);
		fwait(me);
	}
	// the current thread cannot or should not continue
	void switch_away()
	{
		Th* n = pick(true);
		if (n == nullptr)
		{
			// nothing else can move: back to the controller (itself if this is the controller)
			if (cur->id == 0) return;
			n = &th[0];
		}
		transfer(n);
	}
	void maybe_auto_clock();

	void point(bool is_atomic, const void* addr = nullptr, bool wr = true)
	{
		Th* me = cur;
		if (me == nullptr || in_rt || !in_exec || me->atomic_depth) return;
		++points;
		if (learning && addr && me->id) learn(addr, me->id, wr);
		if (me->evseen != evno) { me->evseen = evno; me->cnt = 0; }
		++me->cnt;
		if (me->id == 0)
		{
			if (me->cnt > 80000000) die_fault("nonterminating");
			return;
		}
		if (me->cnt > 3 * EXHAUST && me->cnt > 60000000) die_fault("nonterminating");
		Rt rt;
		if (auto_pm && is_atomic) maybe_auto_clock();
		++me->streak;
		if (me->cnt > EXHAUST)
		{	// spins without progress: let everybody else exhaust itself, then the controller decides
			switch_away();
			return;
		}
		if (me->streak > 2500 && me->cnt > 1500)
		{
			me->yielded = true;
			me->streak = 0;
			if (mode == PCT) me->prio -= 100;
			switch_away();
			return;
		}
		if (use_hot) { if (addr && !is_hot(addr)) return; ++hot_cnt; } else hot_cnt = points;
		switch (mode)
		{
		case RANDOM:
			if (srng.unit() < pswitch)
			{
				Th* n = pick(false);
				if (n && n != me) transfer(n);
			}
			break;
		case PCT:
			for (int i = 0; i < nchg; ++i)
				if (chg[i] == hot_cnt) { me->prio = -1 - i; }
			{
				Th* n = pick(false);
				if (n && n != me && n->prio > me->prio) transfer(n);
			}
			break;
		case BOUND:
			for (int i = 0; i < nchg; ++i)
				if (chg[i] == hot_cnt)
				{
					Th* n = pick(true);
					if (n && n != me) transfer(n);
					break;
				}
			break;
		case COARSE:
			break;
		}
	}
	void yield_point()
	{
		Th* me = cur;
		if (me == nullptr || in_rt || !in_exec || me->atomic_depth) return;
		point(true);
		if (me->id == 0) return;
		Rt rt;
		me->yielded = true;
		switch_away();
	}
	void note_write()
	{
		Th* me = cur;
		if (me == nullptr || in_rt || !in_exec) return;
		me->lrep = 0; me->la = nullptr; me->chances = 0;
		if (!me->quiet && cnt_of(me) < 1000) ++activity;
	}
	void note_read(const void* a, int size, uint64_t v)
	{
		Th* me = cur;
		if (me == nullptr || in_rt || !in_exec || me->id == 0 || me->atomic_depth) return;
		if (me->la == a && me->lv == v)
		{
			if (++me->lrep >= 4)
			{
				Rt rt;
				me->lrep = 0;
				me->st = SPINBLK; me->waddr = a; me->wsize = size; me->wval = v;
				switch_away();
				me->st = RUN;
			}
		}
		else { me->la = a; me->lv = v; me->lrep = 0; me->chances = 0; }
	}

	// ------------------------------------------------------------------ plain memory accesses
	struct Touch { uint64_t a; uint32_t ep; int16_t lastw; int16_t last; };
	Touch touch[1 << 16];
	uint32_t epoch = 1;

	void check_arena(const char* a, size_t n, bool w)
	{
		size_t off = a - ARENA;
		size_t g0 = off / G, g1 = (off + n - 1) / G;
		for (size_t g = g0; g <= g1; ++g)
		{
			unsigned char s = shadow[g];
			if (s == G) continue;
			if (s == 0xFD) die_fault(w ? "use-after-free-write" : "use-after-free-read");
			if (s == 0) die_fault("heap-overflow");
			size_t end = (g == g1) ? (off + n - g * G) : G;
			if (end > s) die_fault("heap-overflow");
		}
	}
	inline void mem(const void* p, size_t n, bool w)
	{
		Th* me = cur;
		if (me == nullptr || in_rt || !in_exec || n == 0) return;
		const char* a = (const char*)p;
		if (++memops > 600000000) die_fault("nonterminating");
		if (a >= ARENA && a < ARENA + ARENA_SZ) check_arena(a, n, w);
		if (me->atomic_depth) return;
		if (me->id == 0) return;
		if (a >= me->stk_lo && a < me->stk_hi) return;
		uint64_t k = (uint64_t)a >> 3;
		Touch& t = touch[(k * 0x9e3779b97f4a7c15ull) >> 48];
		bool conflict = false;
		if (t.a == k && t.ep == epoch)
		{
			conflict = (t.last != me->id) && (w || (t.lastw >= 0 && t.lastw != me->id));
			conflict = conflict || (t.lastw >= 0 && t.lastw != me->id);
			t.last = me->id; if (w) t.lastw = me->id;
		}
		else { t.a = k; t.ep = epoch; t.last = me->id; t.lastw = w ? me->id : -1; }
		if (w) { me->lrep = 0; me->la = nullptr; }
		if (learning) learn(p, me->id, w);
		if (plain_points && (use_hot ? is_hot(p) : conflict)) point(false, p, w);
	}

	// ------------------------------------------------------------------ executions
	void* pool_main(void* p)
	{
		Th* t = (Th*)p;
		cur = t;
		++in_rt;
		stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16;	// a stack overflow is reported like any crash
		ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (ss.ss_sp != MAP_FAILED) sigaltstack(&ss, nullptr);
		pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
		void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
		t->stk_lo = (char*)lo; t->stk_hi = (char*)lo + sz;
		for (;;)
		{
			fwait(t);
			--in_rt;
			try { (*t->fn)(); }
			catch (...) { die_fault("uncaught-exception"); }
			*t->fn = nullptr;				// what it captured lives in this execution's arena
			++in_rt;
			t->st = DONE;
			++activity;
			Th* n = pick(true);
			if (n == nullptr) n = &th[0];
			++total_switches;
			if (n->st == SPINBLK || n->st == MTXBLK || n->st == IDLE) n->st = RUN;
			fpost(n);
		}
		return nullptr;
	}

	void begin_exec(uint64_t seed, int r)
	{
		g_seed = seed;
		srng.s = mix(seed, 1000 + r); drng.s = mix(seed, 2);
		if (r == 0) ++hot_epoch;
		learning = r == 0; single = false; hot_cnt = 0;
		evno = 1; activity = 1; total_points += points; points = 0; memops = 0;
		tlen = 0; clen = 0; nlen = 0; toverflow = false;
		vnow = 0; ndl = 0;
		++epoch;
		memset(mx, 0, sizeof mx);
		for (int i = 0; i < REGIONS; ++i)
		{
			if (abrk[i]) memset(shadow + i * (REGION_SZ / G), 0, abrk[i] / G + 1);
			abrk[i] = 0;
		}
		live = 0;
		for (int i = 1; i < MAXTH; ++i) { th[i].st = UNUSED; th[i].prio = 0; }
		for (int i = 0; i < MAXTH; ++i)
		{
			Th& t = th[i];
			t.evseen = 0; t.cnt = 0; t.streak = 0; t.yielded = false; t.quiet = false; t.hold = 0; t.atomic_depth = 0;
			t.la = nullptr; t.lrep = 0;
		}
		th[0].st = RUN;
		nth = 1;
		auto_pm = 0;
		srand((unsigned)seed);
		uint32_t k = srng.below(100);
		plain_points = srng.below(100) < 60;
		ev_points = srng.below(3) == 0;
		{ uint32_t u = srng.below(6); tick = u == 0 ? 1000000 : u == 1 ? 1000 : 1; }
		use_hot = r > 0 && srng.below(100) < 75;
		nchg = 0;
		if (k < 35)
		{
			mode = RANDOM;
			static const double P[] = { 0.5, 0.25, 0.1, 0.04, 0.015 };
			pswitch = P[srng.below(5)];
		}
		else if (k < 60)
		{
			mode = PCT; nchg = srng.below(4);
		}
		else if (k < 92)
		{
			mode = BOUND; nchg = 1 + srng.below(4);
		}
		else mode = COARSE;
		uint64_t L = (uint64_t)(40 * exp2(srng.unit() * 6.0));		// 40 .. 2560 points
		for (int i = 0; i < nchg; ++i) chg[i] = 1 + srng.below((uint32_t)L);
		if (use_hot) { L = hot_len + hot_len / 4 + 4; for (int i = 0; i < nchg; ++i) chg[i] = 1 + srng.below((uint32_t)L); }
		// positions cluster: races need two points close together
		if (nchg >= 2 && srng.below(2)) for (int i = 1; i < nchg; ++i) chg[i] = chg[i - 1] + 1 + srng.below(40);
		in_exec = true;
	}
	void end_exec()
	{
		in_exec = false;
		if (learning)
		{	// how many decision points the other schedules have, roughly
			hot_len = 0;
			uint64_t n = 0;
			for (auto& e : hot) if (e.ep == hot_epoch) ++n;
			uint64_t m = 0;
			for (auto& e : hot) if (e.ep == hot_epoch && e.multi && e.wr) ++m;
			hot_len = n ? (points * (m + 1)) / (n + 1) : points;
			if (hot_len < 16) hot_len = 16;
			if (hot_len > points) hot_len = points;
		}
	}
	// the clock moves to deadline b, sometimes with a stop just before it
	int64_t before(int64_t b)
	{
		static const int64_t K[] = { 1, 1, 250, 999 };
		if (srng.below(5)) return b;
		int64_t t = b - K[srng.below(4)];
		return t > vnow ? t : b;
	}
	void maybe_auto_clock()
	{
		if (srng.below(1000) >= auto_pm) return;
		for (int i = 0; i < nth; ++i) if (th[i].hold) return;
		int64_t b = -1;
		for (int i = 0; i < ndl; ++i) if (dl[i] > vnow && (b < 0 || dl[i] < b)) b = dl[i];
		if (b < 0) return;
		vnow = before(b);
		char s[64]; snprintf(s, sizeof s, "\"A\",%lld", (long long)vnow);
		sim::ev("%s", s);
	}
}

// ---------------------------------------------------------------------- API for scenarios
namespace sim
{
	uint64_t rnd() { return drng.next(); }
	uint64_t seed() { return g_seed; }
	bool tier_thorough() { return thorough; }
	void ev(const char* fmt, ...)
	{
		if (cur) { cur->lrep = 0; cur->la = nullptr; }		// reading the same value in another call is not a spin
		if (ev_points) point(true);		// between the event and the operations of the library around it
		{
			Rt rt;
			va_list ap; va_start(ap, fmt); vev(fmt, ap); va_end(ap);
		}
		if (ev_points) point(true);
	}
	void cfg(const char* fmt, ...)
	{
		Rt rt;
		va_list ap; va_start(ap, fmt); clen = vsnprintf(cbuf, sizeof cbuf, fmt, ap); va_end(ap);
		if (clen >= sizeof cbuf) { static const char m[] = "cfg overflow\n"; write_all(2, m, sizeof m - 1); _exit(9); }
	}
	void note(const char* fmt, ...)
	{
		Rt rt;
		va_list ap; va_start(ap, fmt); nlen = vsnprintf(nbuf, sizeof nbuf, fmt, ap); va_end(ap);
		if (nlen >= sizeof nbuf) { static const char m[] = "note overflow\n"; write_all(2, m, sizeof m - 1); _exit(9); }
	}
	void fault(const char* what) { die_fault(what); }

	// every thread has its stack at a fixed address
	void stack_attr(pthread_attr_t* at, int id)
	{
		const size_t SZ = 16 << 20;
		char* lo = reinterpret_cast<char*>(0x500000000000ull) + id * 2 * SZ;
		if (mmap(lo, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != lo) _exit(12);
		pthread_attr_init(at);
		if (pthread_attr_setstack(at, lo, SZ) != 0) _exit(12);
	}
	int spawn(std::function<void()> fn)
	{
		Rt rt;
		if (nth >= MAXTH) _exit(11);
		Th* t = &th[nth];
		t->id = nth;
		if (t->fn) delete t->fn;		// malloc'ed: in_rt
		t->fn = new std::function<void()>(std::move(fn));
		t->st = RUN;
		t->prio = (int)srng.below(1000) + 10;
		if (!t->started)
		{
			t->started = true;
			pthread_attr_t at; stack_attr(&at, t->id);
			if (pthread_create(&t->pt, &at, pool_main, t) != 0) _exit(12);
		}
		return nth++;
	}
	int self() { return cur ? cur->id : -1; }
	int run_until_quiescent()
	{
		Rt rt;
		for (int i = 1; i < nth; ++i) { th[i].yielded = false; th[i].cnt = 0; }
		++activity;
		++evno;							// fresh progress accounting
		Th* n = pick(false);
		if (n) transfer(n);
		return all_done() ? 0 : 1;
	}
	bool all_done()
	{
		for (int i = 1; i < nth; ++i) if (th[i].st != DONE) return false;
		return true;
	}
	int spinning()
	{
		int k = 0;
		for (int i = 1; i < nth; ++i) if (th[i].st == RUN) ++k;
		return k;
	}
	int deadlocked()
	{
		int k = 0;
		for (int i = 1; i < nth; ++i) if (th[i].st == SPINBLK || th[i].st == MTXBLK) ++k;
		return k;
	}
	void wake_all() { ++activity; }
	void poll(bool (*fn)(void*), void* ctx)
	{
		Th* me = cur;
		me->hold = 0;
		me->quiet = true;
		uint64_t s = activity;
		point(true);
		bool r = fn(ctx);
		me->quiet = false;
		me->hold = 0;
		if (r) { ++activity; return; }
		if (me->id == 0) return;
		Rt rt;
		me->st = IDLE; me->seen = s;
		switch_away();
		me->st = RUN;
	}
	void yield_hint() { yield_point(); }

	int64_t now() { return vnow; }
	int64_t unit() { return tick; }
	void deadline(int64_t t) { if (ndl < 4096) dl[ndl++] = t; }
	void add_deadline_rel(int64_t d) { deadline(vnow + d); }
	void advance(int64_t d)
	{
		vnow += d;
		ev("\"A\",%lld", (long long)vnow);
	}
	bool advance_to_next_deadline()
	{
		int64_t b = -1;
		for (int i = 0; i < ndl; ++i) if (dl[i] > vnow && (b < 0 || dl[i] < b)) b = dl[i];
		if (b < 0) return false;
		vnow = before(b);
		ev("\"A\",%lld", (long long)vnow);
		return true;
	}
	size_t quiet_ev(const char* fmt, ...)
	{
		Rt rt;
		bool q = cur && cur->quiet; uint64_t a = activity, n = evno;
		va_list ap; va_start(ap, fmt); vev(fmt, ap); va_end(ap);
		if (q) { cur->quiet = true; activity = a; evno = n; }
		return tlen;
	}
	bool last_ev(size_t mark) { return tlen == mark; }
	void drop_ev(size_t mark)
	{
		if (tlen != mark || tlen == 0) return;
		while (tlen > 0 && tbuf[tlen - 1] != '[') --tlen;
		if (tlen) --tlen;
		if (tlen) --tlen;		// the comma
	}
	void hold_clock(bool on) { if (cur) cur->hold = on ? 1 : 0; }
	void auto_clock(uint32_t pm) { auto_pm = pm; }
	long live_blocks() { return live; }
	atomic_section::atomic_section() { if (cur) ++cur->atomic_depth; }
	atomic_section::~atomic_section() { if (cur) --cur->atomic_depth; }
	void plain_strategy() { mode = COARSE; auto_pm = 0; single = true; ev_points = false; }
}

// ---------------------------------------------------------------------- allocation
static void* sim_alloc(size_t n)
{
	if (in_exec && !in_rt && cur)
	{
		size_t need = ((n + G - 1) / G) * G;
		if (need == 0) need = G;
		size_t& brk = abrk[cur->id];
		size_t base = brk + G;			// header granule, also a red zone
		if (base + need + G < REGION_SZ)
		{
			brk = base + need;
			base += cur->id * REGION_SZ;
			char* p = ARENA + base;
			*(size_t*)(p - 8) = n;
			shadow[base / G - 1] = 0;
			size_t g = base / G, k = n;
			for (size_t i = 0; i < need / G; ++i, k = k > G ? k - G : 0)
				shadow[g + i] = (unsigned char)(k > G ? G : k);
			++live;
			memset(p, 0xAB, n);
			return p;
		}
	}
	void* p = malloc(n ? n : 1);
	if (!p) _exit(13);
	return p;
}
static void sim_free(void* p)
{
	if (!p) return;
	char* a = (char*)p;
	if (a >= ARENA && a < ARENA + ARENA_SZ)
	{
		if (!in_exec) return;
		size_t off = a - ARENA, g = off / G;
		if (shadow[g] == 0xFD) die_fault("double-free");
		if (shadow[g] == 0 && *(size_t*)(a - 8) != 0) die_fault("bad-free");
		size_t n = *(size_t*)(a - 8);
		size_t need = ((n + G - 1) / G); if (need == 0) need = 1;
		memset(shadow + g, 0xFD, need);
		memset(a, 0xDD, n);
		--live;
		return;
	}
	free(p);
}
void* operator new(size_t n) { return sim_alloc(n); }
void* operator new[](size_t n) { return sim_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }

// ---------------------------------------------------------------------- clock
namespace std { namespace chrono { inline namespace _V2 {
	system_clock::time_point system_clock::now() noexcept
	{
		if (in_exec) return time_point(duration_cast<duration>(microseconds(BASE + vnow * tick)));
		timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
		return time_point(duration_cast<duration>(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec)));
	}
	steady_clock::time_point steady_clock::now() noexcept
	{
		if (in_exec) return time_point(duration_cast<duration>(microseconds(BASE + vnow * tick)));
		timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
		return time_point(duration_cast<duration>(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec)));
	}
}}}

// ---------------------------------------------------------------------- interposed libc
extern "C"
{
	typedef int (*mfn)(pthread_mutex_t*);
	static mfn real_lock, real_unlock, real_try;
	static void real_init()
	{
		real_lock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
		real_unlock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
		real_try = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	}
	int pthread_mutex_lock(pthread_mutex_t* m)
	{
		if (cur == nullptr || in_rt || !in_exec) { if (!real_lock) real_init(); return real_lock(m); }
		point(true, m);
		Rt rt;
		int type = m->__data.__kind & 3;
		while (true)
		{
			Mx* s = mxslot(m);
			if (s->owner < 0) { s->owner = cur->id; s->depth = 1; break; }
			if (s->owner == cur->id && type == PTHREAD_MUTEX_RECURSIVE) { ++s->depth; break; }
			if (cur->id == 0) die_fault("deadlock");
			cur->st = MTXBLK; cur->waddr = m;
			switch_away();
			cur->st = RUN;
		}
		if (!cur->quiet) ++activity;
		return 0;
	}
	int pthread_mutex_trylock(pthread_mutex_t* m)
	{
		if (cur == nullptr || in_rt || !in_exec) { if (!real_try) real_init(); return real_try(m); }
		point(true, m);
		Rt rt;
		Mx* s = mxslot(m);
		int type = m->__data.__kind & 3;
		if (s->owner < 0) { s->owner = cur->id; s->depth = 1; return 0; }
		if (s->owner == cur->id && type == PTHREAD_MUTEX_RECURSIVE) { ++s->depth; return 0; }
		return EBUSY;
	}
	int pthread_mutex_unlock(pthread_mutex_t* m)
	{
		if (cur == nullptr || in_rt || !in_exec) { if (!real_unlock) real_init(); return real_unlock(m); }
		point(true, m);
		Rt rt;
		Mx* s = mxslot(m);
		if (s->owner == cur->id && --s->depth == 0) s->owner = -1;
		if (!cur->quiet) ++activity;
		return 0;
	}
	int sched_yield()
	{
		if (cur == nullptr || in_rt || !in_exec) return (int)syscall(SYS_sched_yield);
		yield_point();
		return 0;
	}
	int nanosleep(const timespec* a, timespec* b)
	{
		if (cur == nullptr || in_rt || !in_exec) return (int)syscall(SYS_nanosleep, a, b);
		yield_point();
		return 0;
	}
	int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b)
	{
		if (cur == nullptr || in_rt || !in_exec) return (int)syscall(SYS_clock_nanosleep, c, f, a, b);
		yield_point();
		return 0;
	}

	// ------------------------------------------------------------------ instrumentation callbacks
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	void __tsan_read1(void* p) { mem(p, 1, false); }
	void __tsan_read2(void* p) { mem(p, 2, false); }
	void __tsan_read4(void* p) { mem(p, 4, false); }
	void __tsan_read8(void* p) { mem(p, 8, false); }
	void __tsan_read16(void* p) { mem(p, 16, false); }
	void __tsan_write1(void* p) { mem(p, 1, true); }
	void __tsan_write2(void* p) { mem(p, 2, true); }
	void __tsan_write4(void* p) { mem(p, 4, true); }
	void __tsan_write8(void* p) { mem(p, 8, true); }
	void __tsan_write16(void* p) { mem(p, 16, true); }
	void __tsan_unaligned_read2(void* p) { mem(p, 2, false); }
	void __tsan_unaligned_read4(void* p) { mem(p, 4, false); }
	void __tsan_unaligned_read8(void* p) { mem(p, 8, false); }
	void __tsan_unaligned_read16(void* p) { mem(p, 16, false); }
	void __tsan_unaligned_write2(void* p) { mem(p, 2, true); }
	void __tsan_unaligned_write4(void* p) { mem(p, 4, true); }
	void __tsan_unaligned_write8(void* p) { mem(p, 8, true); }
	void __tsan_unaligned_write16(void* p) { mem(p, 16, true); }
	void __tsan_read_write1(void* p) { mem(p, 1, true); }
	void __tsan_read_write2(void* p) { mem(p, 2, true); }
	void __tsan_read_write4(void* p) { mem(p, 4, true); }
	void __tsan_read_write8(void* p) { mem(p, 8, true); }
	void __tsan_read_write16(void* p) { mem(p, 16, true); }
	void __tsan_unaligned_read_write2(void* p) { mem(p, 2, true); }
	void __tsan_unaligned_read_write4(void* p) { mem(p, 4, true); }
	void __tsan_unaligned_read_write8(void* p) { mem(p, 8, true); }
	void __tsan_unaligned_read_write16(void* p) { mem(p, 16, true); }
	void __tsan_read_range(void* p, unsigned long n) { mem(p, n, false); }
	void __tsan_write_range(void* p, unsigned long n) { mem(p, n, true); }
	void __tsan_vptr_update(void** p, void*) { mem(p, 8, true); }
	void __tsan_vptr_read(void** p) { mem(p, 8, false); }
	void* __tsan_memcpy(void* d, const void* s, size_t n) { mem(s, n, false); mem(d, n, true); return memcpy(d, s, n); }
	void* __tsan_memmove(void* d, const void* s, size_t n) { mem(s, n, false); mem(d, n, true); return memmove(d, s, n); }
	void* __tsan_memset(void* d, int c, size_t n) { mem(d, n, true); return memset(d, c, n); }
	void __tsan_ignore_thread_begin() {}
	void __tsan_ignore_thread_end() {}
	void __tsan_atomic_thread_fence(int) { point(true); }
	void __tsan_atomic_signal_fence(int) {}

#define PRE(a, n, w) do { const char* q_ = (const char*)(a); if (cur && in_exec && !in_rt) { if (q_ >= ARENA && q_ < ARENA + ARENA_SZ) check_arena(q_, n, w); \
		point(true, q_, w); if (q_ >= ARENA && q_ < ARENA + ARENA_SZ) check_arena(q_, n, w); } } while (0)
#define ATOMICS(B, T) \
	T __tsan_atomic##B##_load(const volatile T* a, int) { PRE(a, sizeof(T), false); T v = *a; note_read((const void*)a, sizeof(T), (uint64_t)v); return v; } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int) { PRE(a, sizeof(T), true); *a = v; note_write(); } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { PRE(a, sizeof(T), true); T o = *a; *a = v; if (o != v) note_write(); else note_read((const void*)a, sizeof(T), (uint64_t)o); return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { PRE(a, sizeof(T), true); T o = *a; *a = o + v; note_write(); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { PRE(a, sizeof(T), true); T o = *a; *a = o - v; note_write(); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { PRE(a, sizeof(T), true); T o = *a; *a = o & v; note_write(); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { PRE(a, sizeof(T), true); T o = *a; *a = o | v; if ((o | v) != o) note_write(); else note_read((const void*)a, sizeof(T), (uint64_t)o); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { PRE(a, sizeof(T), true); T o = *a; *a = o ^ v; note_write(); return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { PRE(a, sizeof(T), true); T o = *a; *a = ~(o & v); note_write(); return o; } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { PRE(a, sizeof(T), true); T o = *a; if (o == c) { *a = v; note_write(); } else note_read((const void*)a, sizeof(T), (uint64_t)o); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { PRE(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; note_write(); return 1; } note_read((const void*)a, sizeof(T), (uint64_t)o); *c = o; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { PRE(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; note_write(); return 1; } note_read((const void*)a, sizeof(T), (uint64_t)o); *c = o; return 0; }
	ATOMICS(8, uint8_t)
	ATOMICS(16, uint16_t)
	ATOMICS(32, uint32_t)
	ATOMICS(64, uint64_t)
}

// ---------------------------------------------------------------------- worker process
static int64_t wall_ms()
{
	timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000ll + ts.tv_nsec / 1000000;
}
extern void scenario_warmup();
void __attribute__((weak)) scenario_warmup() {}

static void on_terminate()
{
	const char* w = "terminate";
	die_fault(w);
}

static void drive(const char* family, uint64_t seed0, long start, long count, long stride, long maxms);
static volatile int64_t* status_word = nullptr;	// the execution under way, for whoever started this process

int main(int argc, char** argv)
{
	// usage: prog FAMILY SEED START COUNT STRIDE OUT MAXMS [thorough] [show]
	if (argc < 8) { fprintf(stderr, "usage: %s family seed start count stride out maxms [thorough] [show]\n", argv[0]); return 2; }
	const char* family = argv[1];
	uint64_t seed0 = strtoull(argv[2], nullptr, 10);
	long start = atol(argv[3]), count = atol(argv[4]), stride = atol(argv[5]);
	long maxms = atol(argv[7]);
	stride_of = stride;
	// same addresses in every process: schedules are a function of the seed alone
	{
		int per = personality(0xffffffff);
		if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC"))
		{
			if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
		}
	}
	for (int i = 8; i < argc; ++i) { if (!strcmp(argv[i], "thorough")) thorough = true; if (!strcmp(argv[i], "show")) repl = true; }
	if (const char* sf = getenv("SIM_STATUS"))
	{
		int fd = open(sf, O_RDWR | O_CREAT, 0644);
		if (fd >= 0 && ftruncate(fd, 8) == 0)
		{
			void* p = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) status_word = (volatile int64_t*)p;
		}
	}
	outfd = open(argv[6], O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (outfd < 0) { perror("out"); return 2; }
	real_init();
	void* m = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (m != ARENA) { perror("mmap"); return 2; }
	shadow = (unsigned char*)mmap(nullptr, ARENA_SZ / G + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	uniq = new std::unordered_set<uint64_t>();
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU }) sigaction(s, &sa, nullptr);
	std::set_terminate(on_terminate);
	// one processor per worker: the baton then moves without crossing processors
	{
		cpu_set_t all; CPU_ZERO(&all);
		if (sched_getaffinity(0, sizeof all, &all) == 0)
		{
			int n = CPU_COUNT(&all);
			int want = (int)((getpid()) % (n ? n : 1)), c = -1;
			const char* e = getenv("SIM_CPU"); if (e) want = atoi(e) % (n ? n : 1);
			for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && want-- == 0) { c = i; break; }
			if (c >= 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); }
		}
	}
	if (scenario_init) scenario_init();
	pthread_attr_t cat; sim::stack_attr(&cat, 0);
	static struct { char** argv; int argc; const char* family; uint64_t seed0; long start, count, stride, maxms; } A;
	A.argv = argv; A.argc = argc; A.family = family; A.seed0 = seed0; A.start = start; A.count = count; A.stride = stride; A.maxms = maxms;
	pthread_t ct;
	if (pthread_create(&ct, &cat, [](void*) -> void* { drive(A.family, A.seed0, A.start, A.count, A.stride, A.maxms); return nullptr; }, nullptr) != 0) return 2;
	pthread_join(ct, nullptr);
	_exit(0);
}

static void drive(const char* family, uint64_t seed0, long start, long count, long stride, long maxms)
{
	static char alt[1 << 16];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	cur = &th[0]; th[0].id = 0; th[0].st = RUN;
	{
		pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
		void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
		th[0].stk_lo = (char*)lo; th[0].stk_hi = (char*)lo + sz;
	}
	scenario_warmup();
	int64_t t0 = wall_ms();
	// index = scenario * SCHEDULES + schedule; start/count/stride are in scenarios
	const char* oe = getenv("SIM_ONLY");		// run this one index (and the schedule it learns from, unrecorded)
	long only = oe ? atol(oe) : -1;
	for (long k = 0; k < count; ++k)
	{
		long sc = only >= 0 ? only / SCHEDULES : start + k * stride;
		for (int r = 0; r < SCHEDULES; ++r)
		{
			cur_index = sc * SCHEDULES + r;
			if (status_word) *status_word = cur_index + 1;
			if (only >= 0 && r != 0 && cur_index != only) continue;
			bool silent = only >= 0 && cur_index != only;
			quiet_line = silent;
			begin_exec(mix(seed0, (uint64_t)sc), r);
			try { scenario_main(family); }
			catch (...) { die_fault("uncaught-exception"); }
			bool stuck = !sim::all_done();
			if (!silent) emit_line(false);
			end_exec();
			if (stuck)
			{	// some simulated threads can not be ended: continue in a new process
				stats("stuck");
				_exit(4);
			}
			if (single) break;
		}
		if (maxms > 0 && wall_ms() - t0 > maxms) { stats("time"); _exit(0); }
	}
	stats("done");
	_exit(0);
}
