// Scenarios for the runtime: schedulers, tasks, futures, exceptions, sleep, via, stop requests, lifetimes (S01-S06, F01-F03, T02).
#include "common.h"
#include <atomic>
#include <stdexcept>

namespace
{
	using namespace librf;
	struct World;

	// an object that knows whether it is alive
	struct Tracked
	{
		World* w; unsigned magic;
		explicit Tracked(World* w_);
		Tracked(const Tracked& o);
		Tracked(Tracked&& o) noexcept;
		Tracked& operator=(const Tracked&) = default;
		~Tracked();
		void touch() const { if (magic != 0x600DF00D) sim::fault("destroyed-object-used"); }
	};
	struct Big { std::string s; Tracked tr; Big(World* w, int v) : s("a string that does not fit into the object " + std::to_string(v)), tr(w) {} };
	struct MoveOnly { std::unique_ptr<int> p; Tracked tr; MoveOnly(World* w, int v) : p(new int(v)), tr(w) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
	struct MyEx { int n; Tracked tr; };

	struct FS;
	struct Op { char o; int x = 0, y = 0, z = 0; bool caught = true; int how = 0; std::shared_ptr<FS> child; };
	struct FS { std::vector<Op> ops; int rt = 1; int end = 1; };	// rt: 0 void 1 int 2 int& 3 move-only 4 large

	struct Aw
	{
		int type = 0;
		std::atomic<int> claimed{ 0 };
		virtual ~Aw() {}
		virtual void set(World* w, int v) = 0;
	};
	int code(const std::exception_ptr& ep);
	[[noreturn]] void raise(World* w, int c)
	{
		int n = (-c) % 100;
		switch ((-c) / 100)
		{
		case 1: throw n;
		case 2: throw std::runtime_error(std::to_string(n));
		default: throw MyEx{ n, Tracked(w) };
		}
	}
	std::exception_ptr make_ex(World* w, int c) { try { raise(w, c); } catch (...) { return std::current_exception(); } }

	template<class T> T make(World* w, int v);
	template<class T> struct AwT : Aw
	{
		std::unique_ptr<awaitable_t<T>> aw;
		future_t<T> fut;
		bool drop;		// the awaiting coroutine destroys the awaitable as soon as it goes on, as if it were one of its locals
		AwT() : aw(new awaitable_t<T>), fut(aw->get_future()), drop(sim::chance(1, 3)) {}
		void set(World* w, int v) override
		{
			if (drop) return give(*aw, w, v);
			awaitable_t<T> a = std::move(*aw);		// as a callback that owns its copy
			give(a, w, v);
		}
		void done() { if (drop) { aw.reset(); future_t<T> f = std::move(fut); } }
		static void give(const awaitable_t<T>& a, World* w, int v)
		{
			if (v < 0) { if (-v % 2) a.set_exception(make_ex(w, v)); else { int n = (-v) % 100; switch (-v / 100) { case 1: a.throw_exception(n); break; case 2: a.throw_exception(std::runtime_error(std::to_string(n))); break; default: a.throw_exception(MyEx{ n, Tracked(w) }); } } }
			else if constexpr (std::is_void_v<T>) a.set_value();
			else a.set_value(make<T>(w, v));
		}
	};

	struct Task { std::shared_ptr<FS> fs; std::vector<Op> fin; bool hasFin = false; int how = 0; int z = 0; int shared = 0; std::atomic<int> claimed{ 0 }; };
	struct World
	{
		std::atomic<int> ts_seq{ 0 }, ts_open{ 0 };
		int ns, np;
		bool loop = false;
		std::vector<scheduler_t*> sch;
		std::vector<std::unique_ptr<Aw>> aw;
		std::vector<future_t<>> slot;		// sleeps, by awaitable number
		std::vector<char> used;
		std::vector<std::unique_ptr<Task>> task;
		std::vector<stop_source> src;		// what others hold to stop a task
		std::unique_ptr<std::atomic<int>[]> hasSrc;	// 0 no, 1 being stored, 2 there
		std::vector<int> proc;				// thread -> process
		std::atomic<int> objs{ 0 }, sleeping{ 0 };
		std::vector<void*> al;
		int ints[1000];
		int me() { int s = sim::self(); return s == 0 ? ns + np : proc[s]; }
		int alias(void* p)
		{
			sim::atomic_section as;
			if (!p) return 0;
			for (size_t i = 0; i < al.size(); ++i) if (al[i] == p) return (int)i + 1;
			al.push_back(p);
			return (int)al.size();
		}
	};
	Tracked::Tracked(World* w_) : w(w_), magic(0x600DF00D) { ++w->objs; }
	Tracked::Tracked(const Tracked& o) : w(o.w), magic(0x600DF00D) { o.touch(); ++w->objs; }
	Tracked::Tracked(Tracked&& o) noexcept : w(o.w), magic(0x600DF00D) { o.touch(); ++w->objs; }
	Tracked::~Tracked() { touch(); magic = 0xDEADDEAD; --w->objs; }

	template<class T> T make(World* w, int v)
	{
		if constexpr (std::is_same_v<T, int&>) return w->ints[v];
		else if constexpr (std::is_same_v<T, int>) return v;
		else return T(w, v);
	}
	int decode(World* w, int& r) { return &r >= w->ints && &r < w->ints + 1000 && &r == &w->ints[r] ? r : -998; }
	int decode(World*, int&& r) { return r; }
	int decode(World*, MoveOnly r) { r.tr.touch(); return r.p ? *r.p : -998; }
	int decode(World*, Big r)
	{
		static const char P[] = "a string that does not fit into the object ";
		r.tr.touch();
		return r.s.compare(0, sizeof P - 1, P) == 0 ? atoi(r.s.c_str() + sizeof P - 1) : -998;
	}
	int code(const std::exception_ptr& ep)
	{
		try { std::rethrow_exception(ep); }
		catch (int n) { return -100 - n; }
		catch (const canceled_exception& e) { return e._error == error_code::timer_canceled ? -900 : -901; }
		catch (const std::runtime_error& e) { return -200 - atoi(e.what()); }
		catch (const MyEx& e) { e.tr.touch(); return -300 - e.n; }
		catch (...) { return -999; }
	}

	struct Guard
	{	// a local of a coroutine
		World* w; int t, d; Tracked tr; const Tracked* dep;
		Guard(World* w_, int t_, int d_, const Tracked* dep_) : w(w_), t(t_), d(d_), tr(w_), dep(dep_) {}
		~Guard() { dep->touch(); sim::ev("\"D\",%d,%d,%d", t, d, w->me()); }
	};
	void call(int p, const char* o, int x, int y, long z) { sim::ev("\"C\",%d,\"%s\",%d,%d,%ld", p, o, x, y, z); }
	void ret(int p, const char* o, int r) { sim::ev("\"R\",%d,\"%s\",%d", p, o, r); }
	void wait(int t, int d, const char* k, int x = 0, int y = 0) { sim::ev("\"W\",%d,%d,\"%s\",%d,%d", t, d, k, x, y); }
	system_clock::time_point at(int64_t us) { return system_clock::time_point(microseconds(1700000000ll * 1000000ll + us * sim::unit())); }

	void start(World* w, int t, int s);
	// hands the stop source of task t out
	void share(World* w, int t, task_t* k, bool has)
	{
		if (w->hasSrc[t - 1].exchange(1)) return;
		int p = w->me();
		if (!has) { call(p, "gs", t, 0, 0); w->src[t - 1] = k->get_stop_source(); ret(p, "gs", 0); }
		else w->src[t - 1] = k->get_stop_source();
		w->hasSrc[t - 1] = 2;
	}
	void set(World* w, int a, int v)
	{
		Aw& A = *w->aw[a - 1];
		if (A.claimed.exchange(1)) return;
		int p = w->me();
		if (v >= 0 && A.type == 0) v = 1;
		call(p, "set", a, v, 0);
		A.set(w, v);
		ret(p, "set", 0);
	}
	// the operations that need no co_await
	bool plain(World* w, const Op& o)
	{
		int p = w->me();
		switch (o.o)
		{
		case 'G': start(w, o.x, o.y); return true;
		case 's': set(w, o.x, o.y); return true;
		case 'x':
		{	// stop task o.x through a source that was handed out
			if (w->hasSrc[o.x - 1] != 2) return true;
			call(p, "rs", o.x, 0, 0);
			bool r;
			if (o.how & 1) { stop_source s = w->src[o.x - 1]; r = s.request_stop(); }
			else r = w->src[o.x - 1].request_stop();
			ret(p, "rs", r);
			return true;
		}
		case 'E':
		{
			if (p > w->ns) return true;
			call(p, "em", p, 0, 0);
			bool r = w->sch[p - 1]->empty();
			ret(p, "em", r);
			return true;
		}
		case 'R':
			if (p > w->ns) return true;
			call(p, "rsa", p, 0, 0);
			w->sch[p - 1]->request_stop_all_if_possible();
			ret(p, "rsa", 0);
			return true;
		case 't':
		{	// the sleep on its own: a future that a timer completes
			int a = o.x;
			if (w->used[a]) return true;
			w->used[a] = 1;
			int s = o.y ? o.y : p;
			if (s > w->ns) s = 1;
			++w->ts_open; ++w->ts_seq;
			sim::hold_clock(true);
			int64_t dl = sim::now() + o.z;
			sim::deadline(dl);
			call(p, "ts", a, s, dl);
			if (o.how & 1) w->slot[a] = with_tp(dl, o.how >> 1, [&](auto x) { return sleep_until(x, *w->sch[s - 1]); });
			else w->slot[a] = with_dur(o.z, o.how >> 1, [&](auto x) { return sleep_for(x, *w->sch[s - 1]); });
			sim::hold_clock(false);
			ret(p, "ts", 0);
			w->used[a] = 2;
			++w->ts_seq; --w->ts_open;
			return true;
		}
		}
		return false;
	}
	struct StopFn
	{
		World* w; int t; const std::vector<Op>* ops; Tracked tr;
		void operator()() const
		{
			int p = w->me();
			tr.touch();
			sim::ev("\"B\",%d,%d", p, t);
			for (auto& o : *ops) plain(w, o);
			sim::ev("\"E\",%d,%d", p, t);
		}
	};

#define RES(X) do { r = X; } while (0)
#define TRY(X) do { ep = nullptr; try { X; } catch (...) { ep = std::current_exception(); r = code(ep); } } while (0)
#define CONT(D) do { sim::ev("\"S\",%d,%d,%d,%d", t, w->me(), D, r); \
		if (r < 0 && !o.caught) { sim::ev("\"X\",%d,%d,%d", t, D, r); std::rethrow_exception(ep); } } while (0)
#define AWAIT_T(T, F) TRY({ auto f_ = F; r = decode(w, co_await f_); })
#define AWAIT_R(T, F) TRY(r = decode(w, co_await F))
#define AWAIT_V(F) TRY({ co_await F; r = 1; })

#define AWA(T) { auto* A = static_cast<AwT<T>*>(w->aw[o.x - 1].get()); \
		if (o.how & 1) { future_t<T> f_ = A->fut; TRY(r = decode(w, co_await f_)); } \
		else TRY(r = decode(w, co_await A->fut)); \
		A->done(); break; }
#define CHILD(T) { if (o.how & 1) TRY(r = decode(w, co_await frame<T>(w, t, d + 1, o.child.get(), Tracked(w)))); \
		else { future_t<T> f_ = frame<T>(w, t, d + 1, o.child.get(), Tracked(w)); TRY(r = decode(w, co_await f_)); } break; }

#define FRAME_BODY(T, D0, FSP, DEP) \
	const int d = D0; const FS* fs = FSP; \
	sim::ev("\"S\",%d,%d,%d,0", t, w->me(), d); \
	Guard g(w, t, d, DEP); \
	stop_token tok; \
	std::vector<Op> cbops; \
	std::unique_ptr<stop_callback<StopFn>> cb; \
	std::exception_ptr ep; int r = 0; \
	for (const Op& o : fs->ops) \
	{ \
		g.dep->touch(); g.tr.touch(); \
		if (plain(w, o)) continue; \
		switch (o.o) \
		{ \
		case 'y': wait(t, d, "y"); co_await yield(); r = 0; CONT(d); break; \
		case 'Y': if constexpr (!std::is_void_v<T>) { wait(t, d, "g"); co_yield make<T>(w, o.x); r = 0; CONT(d); } break; \
		case 'v': wait(t, d, "v", o.x); if (o.how & 1) co_await via(w->sch[o.x - 1]); else co_await via(*w->sch[o.x - 1]); r = 0; CONT(d); break; \
		case 'a': \
			wait(t, d, "a", o.x); \
			switch (w->aw[o.x - 1]->type) \
			{ \
			case 0: { auto* A = static_cast<AwT<void>*>(w->aw[o.x - 1].get()); TRY({ co_await A->fut; r = 1; }); A->done(); break; } \
			case 1: AWA(int) case 2: AWA(int&) case 3: AWA(MoveOnly) case 4: AWA(Big) \
			} \
			CONT(d); break; \
		case 'w': \
			if (w->used[o.x] != 2) break; \
			w->used[o.x] = 3; \
			{ future_t<> f_ = w->slot[o.x]; wait(t, d, "a", o.x); TRY({ co_await f_; r = 1; }); } \
			CONT(d); break; \
		case 'c': \
			wait(t, d, "c"); \
			switch (o.child->rt) \
			{ \
			case 0: TRY({ co_await frame<void>(w, t, d + 1, o.child.get(), Tracked(w)); r = 1; }); break; \
			case 1: CHILD(int) case 2: CHILD(int&) case 3: CHILD(MoveOnly) case 4: CHILD(Big) \
			} \
			CONT(d); break; \
		case 'n': \
		{ \
			++w->sleeping; \
			int64_t dl = sim::now() + o.x; \
			if (o.how % 3 == 1) sim::deadline(dl); \
			if (o.how % 3 == 1) { wait(t, d, "n", (int)dl, 1); TRY({ auto f_ = with_tp(dl, t + o.x, [&](auto tp_) { return sleep_until(tp_); }); co_await f_; r = 1; }); } \
			else if (o.how % 3 == 2) { wait(t, d, "n", o.x, 0); TRY({ if ((t + o.x / 500) % 2) co_await microseconds(o.x * sim::unit()); else co_await nanoseconds(o.x * sim::unit() * 1000); r = 1; }); } \
			else { wait(t, d, "n", o.x, 0); TRY({ auto f_ = with_dur(o.x, t + o.x / 500, [&](auto d_) { return sleep_for(d_); }); co_await f_; r = 1; }); } \
			--w->sleeping; \
			CONT(d); break; \
		} \
		case 'q': \
		{ \
			scheduler_t* cs = co_await get_current_scheduler(); \
			state_base_t* root = co_await get_root_state(); \
			task_t* tp = co_await get_current_task(); \
			int c = 0, th = 0; \
			for (int i = 0; i < w->ns; ++i) { if (w->sch[i] == cs) c = i + 1; if (w->sch[i] == this_scheduler()) th = i + 1; } \
			sim::ev("\"q\",%d,%d,%d,%d,%d,%d", t, w->me(), c, th, w->alias(root), w->alias(tp)); \
			break; \
		} \
		case 'k': \
		{ \
			task_t* tp = co_await get_current_task(); \
			if (!tp) { sim::fault("no-task"); break; } \
			int p = w->me(); \
			call(p, "gs", t, 0, 0); tok = tp->get_stop_token(); ret(p, "gs", 0); \
			if (o.how & 1) share(w, t, tp, true); \
			break; \
		} \
		case 'X': \
		{	/* its own task */ \
			task_t* tp = co_await get_current_task(); \
			if (!tp) { sim::fault("no-task"); break; } \
			int p = w->me(); \
			const int h = o.how % 3; \
			call(p, "rs", t, h == 2 ? 2 : 1, 0); \
			bool b = h == 0 ? tp->request_stop() : h == 1 ? tp->get_stop_source().request_stop() : tp->request_stop_if_possible(); \
			ret(p, "rs", b); \
			break; \
		} \
		case 'K': \
		{ \
			if (!tok.stop_possible()) break; \
			int p = w->me(); \
			call(p, "sq", t, 0, 0); int b = tok.stop_requested(); ret(p, "sq", b); \
			break; \
		} \
		case 'b': \
		{ \
			if (!tok.stop_possible() || cb || d != 0) break; \
			int p = w->me(); \
			cbops = o.child->ops; \
			call(p, "reg", t, 0, 0); \
			cb.reset(new stop_callback<StopFn>(tok, StopFn{ w, t, &cbops, Tracked(w) })); \
			ret(p, "reg", 0); \
			break; \
		} \
		} \
	} \
	sim::ev("\"X\",%d,%d,%d", t, d, fs->end); \
	if (fs->end < 0) raise(w, fs->end);

	template<class T> future_t<T> frame(World* w, int t, int d0, const FS* fs0, Tracked param)
	{
		FRAME_BODY(T, d0, fs0, &param)
		if constexpr (std::is_void_v<T>) co_return; else co_return make<T>(w, fs->end);
	}
	// an object kept with the function object of a task; the kept one is told so, and its destructor runs operations
	struct Fin
	{
		World* w; int t; bool kept = false;
		Fin(World* w_, int t_) : w(w_), t(t_) {}
		Fin(const Fin& o) : w(o.w), t(o.t) {}
		~Fin()
		{
			if (!kept) return;
			int p = w->me();
			sim::ev("\"y\",%d,%d", t, p);
			for (auto& o : w->task[t - 1]->fin) plain(w, o);
			sim::ev("\"Y\",%d,%d", t, p);
		}
	};
	// a task started from a function object: the coroutine lives on the object's members
	template<class T> struct Callable
	{
		World* w_; int t_; const FS* fs_; Tracked cap; Fin fin;
		future_t<T> operator()()
		{
			World* w = w_; const int t = t_;
			fin.kept = w->task[t - 1]->hasFin;
			FRAME_BODY(T, 0, fs_, &this->cap)
			this->cap.touch();
			if constexpr (std::is_void_v<T>) co_return; else co_return make<T>(w, fs->end);
		}
	};
	template<class T> struct FutCallable { World* w_; int a; Tracked cap; future_t<T> operator()() { cap.touch(); return static_cast<AwT<T>*>(w_->aw[a - 1].get())->fut; } };

	generator_t<int> genf(World* w, int t, const FS* fs, Tracked param)
	{
		sim::ev("\"S\",%d,%d,0,0", t, w->me());
		Guard g(w, t, 0, &param);
		for (auto& o : fs->ops)
		{
			g.dep->touch();
			if (plain(w, o)) continue;
			wait(t, 0, "g");
			co_yield o.x;
			sim::ev("\"S\",%d,%d,0,0", t, w->me());
		}
		sim::ev("\"X\",%d,0,1", t);
		co_return 0;
	}
	struct GenCallable { World* w_; int t_; const FS* fs_; Tracked cap; Fin fin; generator_t<int> operator()() { cap.touch(); fin.kept = w_->task[t_ - 1]->hasFin; return genf(w_, t_, fs_, cap); } };

	template<class T> task_t* start_t(World* w, int t, scheduler_t& s, const FS* fs, int how)
	{
		switch (how)
		{
		case 0: return s + frame<T>(w, t, 0, fs, Tracked(w));
		case 1: { future_t<T> f = frame<T>(w, t, 0, fs, Tracked(w)); return s + f; }
		case 2: return s + Callable<T>{ w, t, fs, Tracked(w), Fin(w, t) };
		default: { const Callable<T> c{ w, t, fs, Tracked(w), Fin(w, t) }; return s + Callable<T>(c); }
		}
	}
	template<class T> task_t* start_f(World* w, int a, scheduler_t& s, int how)
	{
		auto* A = static_cast<AwT<T>*>(w->aw[a - 1].get());
		switch (how % 3)
		{
		case 0: return s + A->fut;
		case 1: return s + future_t<T>(A->fut);
		default: return s + FutCallable<T>{ w, a, Tracked(w) };
		}
	}
	void start(World* w, int t, int s)
	{
		Task& T = *w->task[t - 1];
		if (T.claimed.exchange(1)) return;
		int p = w->me();
		scheduler_t& S = *w->sch[s - 1];
		task_t* k = nullptr;
		call(p, "go", t, s, T.z);
		if (T.z)
			switch (w->aw[T.z - 1]->type)
			{
			case 0: k = start_f<void>(w, T.z, S, T.how); break;
			case 1: k = start_f<int>(w, T.z, S, T.how); break;
			case 2: k = start_f<int&>(w, T.z, S, T.how); break;
			case 3: k = start_f<MoveOnly>(w, T.z, S, T.how); break;
			case 4: k = start_f<Big>(w, T.z, S, T.how); break;
			}
		else if (T.how == 4) k = S + genf(w, t, T.fs.get(), Tracked(w));
		else if (T.how == 5) k = S + GenCallable{ w, t, T.fs.get(), Tracked(w), Fin(w, t) };
		else
			switch (T.fs->rt)
			{
			case 0: k = start_t<void>(w, t, S, T.fs.get(), T.how); break;
			case 1: k = start_t<int>(w, t, S, T.fs.get(), T.how); break;
			case 2: k = start_t<int&>(w, t, S, T.fs.get(), T.how); break;
			case 3: k = start_t<MoveOnly>(w, t, S, T.fs.get(), T.how); break;
			case 4: k = start_t<Big>(w, t, S, T.fs.get(), T.how); break;
			}
		ret(p, "go", 0);
		if (!T.z) sim::ev("\"i\",%d,%d", t, w->alias(k));
		if (!T.z && p == s && (T.shared & 1)) share(w, t, k, false);	// in the scheduler's own thread: it can not have ended
	}
}

void scenario_main(const char* family)
{
	auto is = [&](const char* n) { return !strcmp(family, n); };
	const bool wide = strstr(family, "_wide") != nullptr;
	const bool sleepy = is("task_sleep"), viaf = is("task_via"), excf = is("task_exc"), futf = is("task_fut"), stopf = is("task_stop"), loopf = is("task_loop"), racef = is("task_race");
	long before = sim::live_blocks();
	{
		World W; World* w = &W;
		w->al.reserve(256);
		for (int i = 0; i < 1000; ++i) w->ints[i] = i;
		if (wide) sim::plain_strategy();
		w->ns = racef ? 1 + (sim::chance(1, 4) ? 1 : 0) : viaf ? 2 + sim::rnd(2) : wide ? 1 : 1 + sim::rnd(2) + (sim::chance(1, 5) ? 1 : 0);
		int plainThreads = wide ? 0 : racef ? 1 + sim::rnd(3) : (futf || loopf) ? 1 + sim::rnd(2) : sim::rnd(3);
		w->np = plainThreads + 1;
		w->loop = loopf ? true : sim::chance(1, 4);
		int nt = racef ? 1 + sim::rnd(2) : wide ? 3 + sim::rnd(8) : 1 + sim::rnd(3);
		int na = racef ? 1 + sim::rnd(2) : wide ? 6 + sim::rnd(6) : futf ? 2 + sim::rnd(3) : 1 + sim::rnd(3);
		int nuser = na;
		if (!wide && !racef && (sleepy || sim::chance(1, 2))) sim::auto_clock(2 + sim::rnd(20));
		for (int a = 0; a < na; ++a)
		{
			int ty = sim::rnd(5);
			std::unique_ptr<Aw> A;
			switch (ty) { case 0: A.reset(new AwT<void>); break; case 1: A.reset(new AwT<int>); break; case 2: A.reset(new AwT<int&>); break; case 3: A.reset(new AwT<MoveOnly>); break; default: A.reset(new AwT<Big>); }
			A->type = ty;
			w->aw.push_back(std::move(A));
		}
		int nslots = 0;
		const int maxslots = 8;
		auto exc = [&] { return -(100 * (1 + (int)sim::rnd(3)) + 1 + (int)sim::rnd(90)); };
		auto val = [&] { return 2 + (int)sim::rnd(900); };
		std::vector<int> freeAw;
		for (int a = 1; a <= na; ++a) freeAw.push_back(a);
		auto takeAw = [&] { if (freeAw.empty()) return 0; int i = sim::rnd((uint32_t)freeAw.size()); int a = freeAw[i]; freeAw.erase(freeAw.begin() + i); return a; };
		static const int DT[] = { 0, -3000, 1000, 1000, 2000, 3000, 1500, 1300, 700 };
		auto dt = [&] { return DT[sim::rnd(sim::chance(1, 3) ? 9 : 6)]; };
		auto setop = [&] { return Op{ 's', 1 + (int)sim::rnd(nuser), sim::chance(1, excf ? 2 : 4) ? exc() : val() }; };
		int nextTask = 1;
		std::vector<int> orphan;		// tasks to be started by somebody
		for (int t = 1; t <= nt; ++t) w->task.push_back(std::make_unique<Task>());
		w->src.assign(nt, stop_source(nostopstate));
		w->hasSrc.reset(new std::atomic<int>[nt]);
		for (int t = 0; t < nt; ++t) { w->hasSrc[t] = 0; w->task[t]->shared = sim::rnd(4); }
		std::function<std::shared_ptr<FS>(int, int)> gen = [&](int t, int d) {
			auto fs = std::make_shared<FS>();
			fs->rt = sim::rnd(5);
			int n = (racef ? 1 + sim::rnd(2) : wide ? 2 + sim::rnd(5) : d ? sim::rnd(3) : 1 + sim::rnd(4));
			for (int i = 0; i < n; ++i)
			{
				int k = sim::rnd(100);
				Op o; o.how = sim::rnd(6); o.caught = !sim::chance(1, excf ? 2 : 4);
				if (sleepy && sim::chance(1, 2)) k = 80 + sim::rnd(20);
				if (viaf && sim::chance(2, 5)) k = 40 + sim::rnd(12);
				if (stopf && sim::chance(1, 2)) k = 60 + sim::rnd(16);
				if (racef)
				{	// few operations, so that every order of the threads' steps comes up
					static const int R[] = { 20, 20, 20, 20, 0, 35, 60, 68, 70, 90 };
					k = R[sim::rnd(10)];
				}
				if (k < 14) { o.o = 'y'; }
				else if (k < 18) { if (d) continue; o.o = 'Y'; o.x = sim::rnd(5); }
				else if (k < 30) { o.o = 'a'; o.x = takeAw(); if (!o.x) continue; }
				else if (k < 40 || (excf && k < 60)) { if (d >= 3) continue; o.o = 'c'; o.child = gen(t, d + 1); }
				else if (k < 48) { o.o = 'v'; o.x = 1 + sim::rnd(w->ns); }
				else if (k < 56) { o.o = 'q'; }
				else if (k < 60) { o.o = 'E'; }
				else if (k < 64) { o.o = 'k'; }
				else if (k < 66) { o.o = 'K'; }
				else if (k < 67) { o.o = sim::chance(1, 2) ? 'X' : 'x'; o.x = 1 + sim::rnd(nt); }
				else if (k < 71)
				{
					if (d) continue;
					fs->ops.push_back({ 'k' });
					o.o = 'b'; o.child = std::make_shared<FS>();
					if (sim::chance(2, 3)) o.child->ops.push_back(setop());
					if (sim::chance(1, 3)) o.child->ops.push_back({ 'G', 1 + (int)sim::rnd(nt), 1 + (int)sim::rnd(w->ns) });
					if (sim::chance(1, 3)) o.child->ops.push_back({ 'x', 1 + (int)sim::rnd(nt) });
				}
				else if (k < 73) { if (!(stopf || sleepy || sim::chance(1, 3))) continue; o.o = 'R'; }
				else if (k < 80) o = setop();
				else if (k < 84) { o.o = 'G'; o.x = 1 + sim::rnd(nt); o.y = 1 + sim::rnd(w->ns); }
				else if (k < 92)
				{
					if (nslots >= maxslots) continue;
					++nslots;
					int a = na + nslots;
					fs->ops.push_back({ 't', a, sim::chance(1, 5) ? 1 + (int)sim::rnd(w->ns) : 0, dt(), true, o.how });
					if (sim::chance(1, 4)) fs->ops.push_back({ sim::chance(1, 2) ? 'y' : 'E' });
					if (sim::chance(1, 6)) continue;		// a sleep that nobody awaits
					o.o = 'w'; o.x = a;
				}
				else { o.o = 'n'; o.x = dt(); }
				fs->ops.push_back(o);
			}
			fs->end = sim::chance(1, excf ? 2 : 5) ? exc() : fs->rt == 0 ? 1 : val();
			return fs;
		};
		for (int t = 1; t <= nt; ++t)
		{
			Task& T = *w->task[t - 1];
			if (sim::chance(1, futf || loopf ? 4 : 8) && (T.z = takeAw())) { T.how = sim::rnd(3); continue; }
			T.fs = gen(t, 0);
			T.how = sim::rnd(4);
			if (sim::chance(1, 8))
			{
				T.how = 4 + sim::rnd(2);
				std::vector<Op> v;
				for (auto& o : T.fs->ops) if (strchr("GsERx", o.o)) v.push_back(o); else if (o.o == 'y' || o.o == 'Y' || o.o == 'v') v.push_back({ 'g', (int)sim::rnd(9) });
				T.fs->ops = v;
			}
			if ((T.how == 2 || T.how == 3 || T.how == 5) && sim::chance(1, excf ? 2 : 4))
			{
				T.hasFin = true;
				for (int n = sim::rnd(3); n > 0; --n)
				{
					int k = sim::rnd(10);
					if (k < 3) T.fin.push_back({ 'G', 1 + (int)sim::rnd(nt), 1 + (int)sim::rnd(w->ns) });
					else if (k < 5) T.fin.push_back({ 'E' });
					else if (k < 6 && sim::chance(1, 2)) T.fin.push_back({ 'x', 1 + (int)sim::rnd(nt) });
					else if (k < 6 && (stopf || sleepy)) T.fin.push_back({ 'R' });
					else T.fin.push_back(setop());
				}
			}
		}
		(void)nextTask;
		// what the schedulers' own threads do between two batches, later on
		std::vector<std::vector<Op>> early(w->ns), hl(w->ns);
		for (int h = 0; h < w->ns; ++h)
			for (int i = 0, n = wide ? 0 : (stopf || sleepy) ? sim::rnd(5) : sim::chance(1, 3) ? sim::rnd(3) : 0; i < n; ++i)
			{
				int k = sim::rnd(10);
				auto& v = i && sim::chance(2, 3) ? hl[h] : early[h];
				if (k < 4 && nslots < maxslots) { ++nslots; v.push_back({ 't', na + nslots, sim::chance(1, 4) ? 1 + (int)sim::rnd(w->ns) : 0, dt(), true, (int)sim::rnd(6) }); }
				else if (k < 7 && (stopf || sleepy)) v.push_back({ 'R' });
				else if (k < 8 && sim::chance(1, 2)) v.push_back({ 'x', 1 + (int)sim::rnd(nt) });
				else if (k < 8) v.push_back({ 'E' });
				else if (k < 9) v.push_back({ 'G', 1 + (int)sim::rnd(nt), 1 + (int)sim::rnd(w->ns) });
				else v.push_back(setop());
			}
		// the sleeps are awaitables na+1 .. na+nslots
		std::vector<int> fins;
		for (auto& k : w->task) fins.push_back(k->hasFin);
		sim::cfg("\"ns\":%d,\"np\":%d,\"nt\":%d,\"na\":%d,\"fin\":%s", w->ns, w->np, nt, na + nslots, js(fins).c_str());
		w->used.assign(na + maxslots + 1, 0);
		for (int i = 0; i <= na + maxslots; ++i) w->slot.push_back(awaitable_t<>().get_future());
		// starters: the scheduler's own thread before its first batch, a plain thread, (an operation of another task)
		std::vector<std::vector<Op>> hs(w->ns), ps(plainThreads);
		for (int t = 1; t <= nt; ++t)
		{
			if (t > 1 && sim::chance(1, 5)) continue;		// left to the operations of others, or never
			Op o{ 'G', t, 1 + (int)sim::rnd(w->ns) };
			if (plainThreads && sim::chance(1, 3)) ps[sim::rnd(plainThreads)].push_back(o);
			else { int h = sim::rnd(w->ns); if (!sim::chance(1, 4)) o.y = h + 1; hs[h].push_back(o); }
		}
		for (int i = 0; i < plainThreads; ++i)
		{
			int n = sim::rnd(4);
			for (int j = 0; j < n; ++j)
			{
				Op o = setop();
				if (sim::chance(1, 6)) o = { 'G', 1 + (int)sim::rnd(nt), 1 + (int)sim::rnd(w->ns) };
				else if (sim::chance(1, stopf || racef ? 3 : 8)) o = { 'x', 1 + (int)sim::rnd(nt) };
				ps[i].insert(ps[i].begin() + sim::rnd((uint32_t)ps[i].size() + 1), o);
			}
		}
		for (int h = 0; h < w->ns; ++h)
		{
			if (sim::chance(1, 4)) hs[h].insert(hs[h].begin() + sim::rnd((uint32_t)hs[h].size() + 1), setop());
			if (sim::chance(1, 6)) hs[h].push_back({ 'E' });
			for (auto& o : early[h]) hs[h].insert(hs[h].begin() + sim::rnd((uint32_t)hs[h].size() + 1), o);
		}
		// threads
		w->proc.assign(64, 0);
		w->sch.assign(w->ns, nullptr);
		struct Ctl { std::atomic<bool> begin{ false }, late{ false }, quit{ false }; } ctl;
		struct HostArg { World* w; int h; bool todo; bool busy; int seq; int64_t clock; };
		for (int h = 0; h < w->ns; ++h)
		{
			int tid = sim::spawn([w, h, &ctl, &hs, &hl] {
				local_scheduler_t ls;
				w->sch[h] = this_scheduler();
				while (!ctl.begin) sim::poll([](void* c) { return static_cast<Ctl*>(c)->begin.load(); }, &ctl);
				for (auto& o : hs[h]) plain(w, o);
				HostArg arg{ w, h, false, true, 0, 0 };
				bool late = false;
				while (!ctl.quit)
				{
					if (ctl.late && !late)
					{
						late = true;
						for (auto& o : hl[h]) plain(w, o);
						arg.busy = true;
						continue;
					}
					if (w->loop)
					{
						sim::poll([](void* x) { auto* a = static_cast<HostArg*>(x); return a->todo = !a->w->sch[a->h]->empty(); }, &arg);
						if (!arg.todo) continue;
						sim::ev("\"l\",%d", h + 1);
						w->sch[h]->run_until_notask();
						sim::ev("\"m\",%d", h + 1);
					}
					else sim::poll([](void* x) {
						auto* a = static_cast<HostArg*>(x);
						// an empty batch is left out of the history when it can not have done anything
						size_t m = sim::quiet_ev("\"b\",%d", a->h + 1);
						bool keep = a->busy || a->w->ts_open > 0;
						int seq = a->w->ts_seq; int64_t clock = sim::now();
						const bool busy = a->busy; const int seq0 = a->seq; const int64_t clock0 = a->clock;
						keep = keep || seq != a->seq || clock != a->clock;
						a->seq = seq; a->clock = clock;
						bool r = a->w->sch[a->h]->run_one_batch();
						a->busy = r;
						keep = keep || a->w->ts_open > 0 || a->w->ts_seq != a->seq || sim::now() != a->clock;
						bool moved = busy || a->w->ts_seq != seq0 || sim::now() != clock0;
						if (moved) sim::wake_all();			// it may have made something ready on another scheduler
						if (r || keep || !sim::last_ev(m)) sim::quiet_ev("\"e\",%d,%d", a->h + 1, (int)r);
						else sim::drop_ev(m);
						return r; }, &arg);
				}
			});
			w->proc[tid] = h + 1;
		}
		sim::run_until_quiescent();
		for (int i = 0; i < plainThreads; ++i)
		{
			int tid = sim::spawn([w, i, &ps] { for (auto& o : ps[i]) plain(w, o); });
			w->proc[tid] = w->ns + 1 + i;
		}
		ctl.begin = true;
		sim::wake_all();
		bool released = false;
		int extra = 0;
		for (;;)
		{
			sim::run_until_quiescent();
			if (sim::deadlocked()) sim::fault("deadlock");
			sim::ev("\"Q\"");
			if (!ctl.late && sim::chance(1, 2)) { ctl.late = true; sim::wake_all(); continue; }
			if (!released && sim::chance(1, 2))
			{
			release:
				released = true;
				// (not by the controller itself: a busy host may have been left inside a lock)
				std::vector<int> vs;
				for (int a = 1; a <= nuser; ++a) vs.push_back(sim::chance(1, 4) ? exc() : val());
				int tid = sim::spawn([w, vs] { for (size_t a = 0; a < vs.size(); ++a) set(w, (int)a + 1, vs[a]); });
				w->proc[tid] = w->ns + w->np;
				sim::wake_all();
				continue;
			}
			if (sim::advance_to_next_deadline()) { sim::wake_all(); continue; }
			if (w->sleeping > 0 && extra++ < 60) { sim::advance(1000); sim::wake_all(); continue; }
			if (!released) goto release;
			if (!ctl.late) { ctl.late = true; sim::wake_all(); continue; }
			break;
		}
		ctl.quit = true;
		sim::wake_all();
		sim::run_until_quiescent();
		if (!sim::all_done()) sim::fault("host-stuck");
		sim::ev("\"Z\"");
		W.aw.clear();
		W.slot.clear();
		for (auto& t : W.task) t->fs.reset();
		if (W.objs != 0) sim::fault("object-count");
	}
	if (sim::live_blocks() != before) sim::fault("leak");
}
