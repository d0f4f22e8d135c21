// Scenarios for timer_manager (T01).
#include "common.h"
#include <atomic>

namespace
{
	using namespace librf;
	struct World;
	struct Op { char o; int x = 0; int dl = 0; int how = 0; };	// a(dd) s(top) x(pired) e(mpty) c(lear)
	struct Slot
	{
		std::atomic<int> claimed{ 0 }, ready{ 0 };
		timer_handler h;
		detail::timer_target_ptr p;
		std::vector<Op> body;		// what the callback does
		int m = 0;					// its manager
	};
	struct World
	{
		std::vector<timer_mgr_ptr> mgr;
		std::vector<std::unique_ptr<Slot>> tm;
		std::vector<int> proc;
		std::atomic<int> objs{ 0 };
		std::atomic<bool> closing{ false };
		int np = 0;
		int me() { int s = sim::self(); return s == 0 ? np : proc[s]; }
	};
	struct Cb
	{
		World* w; int i; unsigned magic = 0x600DF00D; std::string big = "too large to be stored inside of a function object";
		Cb(World* w_, int i_) : w(w_), i(i_) { ++w->objs; }
		Cb(const Cb& o) : w(o.w), i(o.i) { o.touch(); ++w->objs; }
		~Cb() { touch(); magic = 0xDEADDEAD; --w->objs; }
		void touch() const { if (magic != 0x600DF00D) sim::fault("destroyed-callback-used"); }
		void operator()(bool canceled) const;
	};
	system_clock::time_point at(int64_t us) { return system_clock::time_point(microseconds(1700000000ll * 1000000ll + us * sim::unit())); }
	void call(int p, const char* o, int x, long y) { sim::ev("\"C\",%d,\"%s\",%d,%ld", p, o, x, y); }
	void ret(int p, const char* o, int r) { sim::ev("\"R\",%d,\"%s\",%d", p, o, r); }

	void exec(World* w, const Op& o)
	{
		int p = w->me();
		switch (o.o)
		{
		case 'a':
		{
			Slot& S = *w->tm[o.x - 1];
			if (S.claimed.exchange(1)) return;
			sim::hold_clock(true);
			int64_t dl = sim::now() + o.dl;
			sim::deadline(dl);
			auto& M = w->mgr[S.m];
			if (o.how >= 6)		// the handle has been another timer's
				for (auto& t : w->tm) if (t.get() != &S && t->ready && !t->p && (sim::chance(1, 3) || t->m != S.m)) { S.h = t->h; break; }
			call(p, "add", o.x, dl);
			switch (o.how % 6)
			{
			case 0: S.h = M->add_handler(microseconds(o.dl * sim::unit()), Cb(w, o.x)); break;
			case 1: S.h = M->add_handler(at(dl), Cb(w, o.x)); break;
			case 2: S.p = M->add(microseconds(o.dl * sim::unit()), Cb(w, o.x)); break;
			case 3: S.p = M->add(at(dl), Cb(w, o.x)); break;
			case 4: { const std::function<void(bool)> f = Cb(w, o.x); S.h = M->add_handler(at(dl), f); break; }
			case 5: { timer_handler h = M->add_handler(nanoseconds(o.dl * 1000ll * sim::unit()), Cb(w, o.x)); S.h = std::move(h); break; }
			}
			sim::hold_clock(false);
			ret(p, "add", 0);
			S.ready = 1;
			break;
		}
		case 's':
		{
			Slot& S = *w->tm[o.x - 1];
			if (!S.ready) return;
			bool r;
			if (S.p) { call(p, "stop", o.x, 0); r = w->mgr[S.m]->stop(S.p); ret(p, "stop", r); }
			else
			{
				timer_handler h = S.h;
				if (o.how >= 9) { timer_handler k = h; k.reset(); if (!k.expired() || k.stop()) sim::fault("handle-after-reset"); }
				if (o.how == 8) { timer_handler k(std::move(h)); if (!h.expired() || h.stop()) sim::fault("handle-moved-from"); h = k; }
				call(p, "stop", o.x, 0); r = h.stop(); ret(p, "stop", r);
				if (!h.expired() || h.stop()) sim::fault("handle-after-stop");
			}
			break;
		}
		case 'x':
		{
			Slot& S = *w->tm[o.x - 1];
			if (!S.ready || S.p) return;
			timer_handler h = S.h;
			call(p, "exp", o.x, 0);
			bool r = h.expired();
			ret(p, "exp", r);
			break;
		}
		case 'e': { int m = o.how % w->mgr.size(); call(p, "emp", m + 1, 0); bool r = w->mgr[m]->empty(); ret(p, "emp", r); break; }
		case 'c': { int m = o.how % w->mgr.size(); call(p, "clr", m + 1, 0); w->mgr[m]->clear(); ret(p, "clr", 0); break; }
		}
	}
	void Cb::operator()(bool canceled) const
	{
		int p = w->me();
		touch();
		sim::ev("\"B\",%d,%d,%d", p, i, (int)canceled);
		if (!w->closing) for (auto& o : w->tm[i - 1]->body) exec(w, o);
		touch();
		sim::ev("\"E\",%d,%d", p, i);
	}
}

void scenario_main(const char* family)
{
	const bool wide = strstr(family, "_wide") != nullptr;
	long before = sim::live_blocks();
	{
		World W; World* w = &W;
		int nthreads = wide ? 1 : 2 + sim::rnd(2);		// the first one drives the manager
		int nt = wide ? 6 + sim::rnd(20) : 1 + sim::rnd(4);
		w->np = nthreads + 1;
		if (wide) sim::plain_strategy();
		sim::auto_clock(sim::chance(1, 2) ? 2 + sim::rnd(30) : 0);
		int nm = sim::chance(1, 3) ? 2 : 1;
		for (int m = 0; m < nm; ++m) w->mgr.push_back(std::make_shared<timer_manager>());
		std::vector<int> mgr;
		for (int i = 0; i < nt; ++i)
		{
			w->tm.push_back(std::make_unique<Slot>());
			mgr.push_back(1 + (w->tm[i]->m = sim::rnd(nm)));
		}
		bool calm = sim::chance(1, 2);		// nothing is cleared
		auto op = [&](bool adder, bool host, bool cb) {
			static const int DT[] = { 0, -1000, 1000, 1000, 2000, 3000, -2000, 1500, 1300, 700, 2 };
			int k = sim::rnd(100);
			Op o{ 'a', 1 + (int)sim::rnd(nt), DT[sim::rnd(sim::chance(1, 3) ? 11 : 7)], (int)sim::rnd(12) };
			if (adder && k < 45) o.o = 'a';
			else if (k < 70) o.o = 's';
			else if (k < 80) o.o = 'x';
			else if (k < 90) o.o = 'e';
			else if (calm) o.o = 's';
			else o.o = 'c';
			(void)host; (void)cb;
			return o;
		};
		for (int i = 0; i < nt; ++i)
		{
			int n = sim::chance(1, 2) ? 0 : 1 + sim::rnd(3);
			for (int k = 0; k < n; ++k) w->tm[i]->body.push_back(op(true, false, true));
		}
		std::vector<std::vector<std::vector<Op>>> sc(nthreads);		// thread, phase
		int phases = wide ? 3 + sim::rnd(8) : 1 + sim::rnd(3);
		for (int i = 0; i < nthreads; ++i)
			for (int f = 0; f < phases; ++f)
			{
				std::vector<Op> v;
				int n = wide ? 1 + sim::rnd(6) : sim::rnd(i ? 4 : 3);
				for (int k = 0; k < n; ++k) v.push_back(op(true, i == 0, false));
				sc[i].push_back(v);
			}
		sim::cfg("\"np\":%d,\"nt\":%d,\"mgr\":%s", w->np, nt, js(mgr).c_str());
		w->proc.assign(64, 0);
		struct Ctl { World* w; std::atomic<int> phase{ 0 }; std::atomic<bool> quit{ false }; } ctl;
		ctl.w = w;
		w->proc[sim::spawn([&, w] {
			int done = 0;
			while (!ctl.quit)
			{
				if (done < ctl.phase) { for (auto& o : sc[0][done]) exec(w, o); ++done; continue; }
				sim::poll([](void* x) {
					auto* c = static_cast<Ctl*>(x);
					for (size_t k = 0; k < c->w->mgr.size(); ++k)
					{
						size_t m = sim::quiet_ev("\"C\",1,\"upd\",%d,0", (int)k + 1);
						c->w->mgr[k]->update();
						bool any = !sim::last_ev(m);
						if (any) sim::quiet_ev("\"R\",1,\"upd\",0"); else sim::drop_ev(m);
					}
					return false; }, &ctl);
			}
		})] = 1;
		for (int i = 1; i < nthreads; ++i)
			w->proc[sim::spawn([&, w, i] {
				int done = 0;
				while (!ctl.quit)
				{
					if (done < ctl.phase) { for (auto& o : sc[i][done]) exec(w, o); ++done; continue; }
					struct A { Ctl* c; int d; } a{ &ctl, done };
					sim::poll([](void* x) { auto* a = static_cast<A*>(x); return a->c->quit || a->d < a->c->phase; }, &a);
				}
			})] = i + 1;
		for (;;)
		{
			sim::run_until_quiescent();
			if (sim::deadlocked()) sim::fault("deadlock");
			sim::ev("\"Q\"");
			if (ctl.phase < phases && sim::chance(1, 2)) { ++ctl.phase; sim::wake_all(); continue; }
			if (ctl.phase == phases && sim::chance(1, 3)) break;		// with timers that are still pending
			if (sim::advance_to_next_deadline()) { sim::wake_all(); continue; }
			if (ctl.phase < phases) { ++ctl.phase; sim::wake_all(); continue; }
			break;
		}
		ctl.quit = true;
		sim::wake_all();
		sim::run_until_quiescent();
		if (!sim::all_done()) sim::fault("host-stuck");
		w->closing = true;
		for (int m = 0; m < nm; ++m)
		{
			call(w->np, "clr", m + 1, 0);
			w->mgr[m].reset();
			ret(w->np, "clr", 0);
			for (int i = 1; m + 1 < nm && i <= nt; ++i)			// the others go on
				if (w->tm[i - 1]->m > m) exec(w, Op{ "sxx"[sim::rnd(3)], i, 0, (int)sim::rnd(12) });
		}
		sim::ev("\"Z\"");
		for (auto& s : w->tm)
		{
			if (s->ready && !s->p && !s->h.expired()) sim::fault("timer-object-kept");
			if (s->ready && s->h.stop()) sim::fault("stop-after-the-end");
		}
		if (w->objs != 0) sim::fault("callback-object");
	}
	if (sim::live_blocks() != before) sim::fault("leak");
}
