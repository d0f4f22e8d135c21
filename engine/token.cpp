// Scenarios for asio::rf_task, the completion token that makes asio's operations awaitable (A01).
// The operations are made here with asio's own initiation functions (async_initiate, async_completion);
// io_context is not involved: when and where a handler is invoked is what varies.
#include "common.h"
#include "asio/async_result.hpp"
#include "asio/executor.hpp"
#include "asio/system_executor.hpp"
#include "asio/error_code.hpp"
#include "asio/error.hpp"
#include "asio/system_error.hpp"
#include "asio/version.hpp"
#include "asio/asio_task.h"
#include <tuple>

namespace
{
	struct MyErr { int n; std::string s; explicit MyErr(int x) : n(x), s("error-" + std::to_string(x)) {} MyErr(const MyErr&) = default; };
	struct Big
	{
		int v = -7; std::string s; std::vector<int> w;
		Big() = default;
		explicit Big(int x) : v(x), s("value-number-" + std::to_string(x)), w(5, x) {}
	};
	using Ptr = std::unique_ptr<int>;

	struct Vals { int a, b; };
	template<class T> T enc(int v)
	{
		if constexpr (std::is_same_v<T, std::string>) return "s" + std::to_string(v) + std::string(v % 40, 'x');
		else if constexpr (std::is_same_v<T, Ptr>) return std::make_unique<int>(v);
		else return T(v);
	}
	template<class T> int dec(const T& t)
	{
		if constexpr (std::is_same_v<T, std::string>)
		{
			if (t.empty() || t[0] != 's') return -1;
			int v = atoi(t.c_str() + 1);
			return t == enc<std::string>(v) ? v : -1;
		}
		else if constexpr (std::is_same_v<T, Big>) { Big b(t.v); return t.s == b.s && t.w == b.w ? t.v : -1; }
		else if constexpr (std::is_same_v<T, Ptr>) return t ? *t : -1;
		else return (int)t;
	}

	// an error, as the code the specification knows: 0 none, 1..99 error_code of asio's system category,
	// 101..149 of the generic one, 150..179 those of asio's other categories, 180..199 one of our own; 201.. exceptions
	struct OwnCat : std::error_category
	{
		const char* name() const noexcept override { return "own"; }
		std::string message(int v) const override { return "own " + std::to_string(v); }
		std::error_condition default_error_condition(int v) const noexcept override { return v & 1 ? std::errc::operation_canceled : std::error_condition(v, *this); }
	};
	const OwnCat& own_cat() { static OwnCat c; return c; }
	asio::error_code mk_ec(int e)
	{
		if (e == 0) return asio::error_code();
		if (e < 100) return asio::error_code(e, asio::system_category());
		switch (e)
		{
		case 150: return asio::error::eof;
		case 151: return asio::error::already_open;
		case 152: return asio::error::not_found;
		case 153: return asio::error::host_not_found;
		case 154: return asio::error::service_not_found;
		case 155: return asio::error::operation_aborted;
		case 156: return asio::error::connection_reset;
		case 157: return asio::error_code(-1, asio::system_category());
		}
		if (e >= 180) return asio::error_code(e - 180 + 1, own_cat());
		return asio::error_code(e - 100, std::generic_category());
	}
	std::exception_ptr mk_ex(int e)
	{
		if (e == 0) return nullptr;
		if (e <= 200) return std::make_exception_ptr(asio::system_error(mk_ec(e)));
		return std::make_exception_ptr(MyErr(e));
	}
	int err_of(std::exception_ptr x)
	{
		try { std::rethrow_exception(x); }
		catch (const asio::system_error& s)
		{
			if (s.code().category() == own_cat()) return 180 - 1 + s.code().value();
			for (int e = 150; e < 158; ++e) if (s.code() == mk_ec(e)) return e;
			if (s.code().category() == asio::system_category()) return s.code().value();
			if (s.code().category() == std::generic_category()) return 100 + s.code().value();
			return -2;
		}
		catch (const MyErr& m) { return m.s == MyErr(m.n).s ? m.n : -3; }
		catch (...) { return -4; }
	}

	struct Op
	{
		int k = 0;
		const char* kind = "-";		// what the signature says: none, ec, ex - what precedes the values
		int nv = 0;					// number of values
		int err = 0; Vals v{ 0, 0 };
		int how = 0;				// bit 0: old style initiation, 1: a copy of the handler outlives the call, 2: other executor
		int where = 0;				// 0 in the initiation, 1 after it by the starter, 2 by a thread, 3 by another coroutine, 4 at a later phase
		int sig = 0;
		std::function<void()> fire;		// set by the initiation
		std::vector<std::function<void()>> kept;	// copies that outlive the call
		std::atomic<int> ready{ 0 };
	};
	void fire(Op& o)
	{
		std::function<void()> f = std::move(o.fire);
		o.fire = nullptr;
		if (o.how & 2) o.kept.push_back(f);
		sim::ev("\"H\",%d,%d,%d,%d", o.k, o.err, o.nv > 0 ? o.v.a : 0, o.nv > 1 ? o.v.b : 0);
		f();
		sim::ev("\"h\",%d", o.k);
	}
	// handlers are invoked with temporaries or with values of the operation, which they must leave alone
	template<class Hd, class T> void give(Op& o, int v, Hd h, T*)
	{
		if constexpr (std::is_copy_constructible_v<T>)
			if (o.how & 16)
			{
				T x = enc<T>(v);
				if (o.how & 32) h(std::as_const(x)); else h(x);
				if (dec(x) != v) sim::fault("argument changed");
				return;
			}
		h(enc<T>(v));
	}
	// what the asynchronous operation keeps of its handler, by signature
	template<class X> struct tag {};
	template<class Hd, class T> void arm(Op& o, Hd h, tag<std::tuple<T>>) { o.fire = [h, &o]() mutable { give(o, o.v.a, [&](auto&& x) { h(std::forward<decltype(x)>(x)); }, (T*)nullptr); }; }
	template<class Hd> void arm(Op& o, Hd h, tag<std::tuple<>>) { o.fire = [h]() mutable { h(); }; }
	template<class Hd, class T, class U> void arm(Op& o, Hd h, tag<std::tuple<T, U>>) { o.fire = [h, &o]() mutable { give(o, o.v.a, [&](auto&& x) { give(o, o.v.b, [&](auto&& y) { h(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }, (U*)nullptr); }, (T*)nullptr); }; }
	template<class Hd> void arm(Op& o, Hd h, tag<std::tuple<asio::error_code>>) { o.fire = [h, &o]() mutable { h(mk_ec(o.err)); }; }
	template<class Hd, class T> void arm(Op& o, Hd h, tag<std::tuple<asio::error_code, T>>) { o.fire = [h, &o]() mutable { give(o, o.v.a, [&](auto&& x) { h(mk_ec(o.err), std::forward<decltype(x)>(x)); }, (T*)nullptr); }; }
	template<class Hd, class T, class U> void arm(Op& o, Hd h, tag<std::tuple<asio::error_code, T, U>>) { o.fire = [h, &o]() mutable { give(o, o.v.a, [&](auto&& x) { give(o, o.v.b, [&](auto&& y) { h(mk_ec(o.err), std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }, (U*)nullptr); }, (T*)nullptr); }; }
	template<class Hd> void arm(Op& o, Hd h, tag<std::tuple<std::exception_ptr>>) { o.fire = [h, &o]() mutable { h(mk_ex(o.err)); }; }
	template<class Hd, class T> void arm(Op& o, Hd h, tag<std::tuple<std::exception_ptr, T>>) { o.fire = [h, &o]() mutable { give(o, o.v.a, [&](auto&& x) { h(mk_ex(o.err), std::forward<decltype(x)>(x)); }, (T*)nullptr); }; }
	template<class Hd, class T, class U> void arm(Op& o, Hd h, tag<std::tuple<std::exception_ptr, T, U>>) { o.fire = [h, &o]() mutable { give(o, o.v.a, [&](auto&& x) { give(o, o.v.b, [&](auto&& y) { h(mk_ex(o.err), std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }, (U*)nullptr); }, (T*)nullptr); }; }

	template<class... A, class Token> auto initiate(Op& o, const Token& tok)
	{
		using Sig = void(A...);
		if (o.how & 1)
		{
			asio::async_completion<const Token, Sig> init(tok);
			arm(o, std::move(init.completion_handler), tag<std::tuple<A...>>());
			if (o.where == 0) fire(o); else o.ready = 1;
			return init.result.get();
		}
		return asio::async_initiate<const Token, Sig>([&o](auto&& h)
			{
				arm(o, std::move(h), tag<std::tuple<A...>>());
				if (o.where == 0) fire(o); else o.ready = 1;
			}, tok);
	}
	template<class... A> auto start(Op& o)
	{
		if (o.how & 4)
		{
			static constexpr asio::rf_task_t<asio::system_executor> tok;
			return initiate<A...>(o, tok);
		}
		return initiate<A...>(o, asio::rf_task);
	}

	int host_of(Hosts* H)
	{
		for (int i = 0; i < H->size(); ++i) if (rf::this_scheduler() == &(*H)[i]) return i + 1;
		return 0;
	}
	void ret(int p, Op& o, Hosts* H, int err, int a = 0, int b = 0) { sim::ev("\"R\",%d,%d,%d,%d,%d,%d", p, o.k, host_of(H), err, a, b); }

	// starts operation o and awaits it; between the two it may do other things
	template<class... A> rf::future_t<> run_op(int p, Op& o, Hosts* H, int gap)
	{
		sim::ev("\"S\",%d,%d,\"%s\",%d", p, o.k, o.kind, o.nv);
		auto f = start<A...>(o);
		if (o.where == 1) fire(o);
		for (int i = 0; i < gap; ++i) co_await rf::yield();
		sim::ev("\"W\",%d,%d", p, o.k);
		int err = 0;
		try
		{
			using R = std::remove_cvref_t<decltype(f)>;
			using V = typename R::value_type;
			if constexpr (std::is_void_v<V>) { co_await f; ret(p, o, H, 0); }
			else
			{
				auto r = co_await f;
				using T = decltype(r);
				if constexpr (requires { std::tuple_size<T>::value; })
				{
					if constexpr (std::tuple_size_v<T> == 0) ret(p, o, H, 0);
					else if constexpr (std::tuple_size_v<T> == 2) ret(p, o, H, 0, dec(std::get<0>(r)), dec(std::get<1>(r)));
				}
				else ret(p, o, H, 0, dec(r));
			}
		}
		catch (...) { err = err_of(std::current_exception()); }
		if (err) ret(p, o, H, err);
	}

	constexpr int NSIGS = 17;
	rf::future_t<> run_sig(int p, Op& o, Hosts* H, int gap)
	{
		using EC = asio::error_code; using EP = std::exception_ptr;
		switch (o.sig)
		{
		case 0: return run_op<>(p, o, H, gap);
		case 1: return run_op<EC>(p, o, H, gap);
		case 2: return run_op<EP>(p, o, H, gap);
		case 3: return run_op<int>(p, o, H, gap);
		case 4: return run_op<std::string>(p, o, H, gap);
		case 5: return run_op<Ptr>(p, o, H, gap);
		case 6: return run_op<EC, int>(p, o, H, gap);
		case 7: return run_op<EC, Big>(p, o, H, gap);
		case 8: return run_op<EC, Ptr>(p, o, H, gap);
		case 9: return run_op<EP, int>(p, o, H, gap);
		case 10: return run_op<EP, std::string>(p, o, H, gap);
		case 11: return run_op<int, std::string>(p, o, H, gap);
		case 12: return run_op<Big, int>(p, o, H, gap);
		case 13: return run_op<EC, int, Big>(p, o, H, gap);
		case 14: return run_op<EC, std::string, int>(p, o, H, gap);
		case 15: return run_op<EP, int, std::string>(p, o, H, gap);
		default: return run_op<EP, Big, int>(p, o, H, gap);
		}
	}
	void describe(Op& o)
	{
		static const char* K[] = { "-", "ec", "ex", "-", "-", "-", "ec", "ec", "ec", "ex", "ex", "-", "-", "ec", "ec", "ex", "ex" };
		o.kind = K[o.sig];
		o.nv = o.sig < 3 ? 0 : o.sig < 11 ? 1 : 2;
		o.err = 0;
		if (o.kind[0] == 'e' && sim::chance(1, 2))
			o.err = sim::chance(1, 3) ? 101 + sim::rnd(40) : sim::chance(1, 3) ? 150 + sim::rnd(8) : sim::chance(1, 6) ? 180 + sim::rnd(15) : o.kind[1] == 'x' && sim::chance(2, 3) ? 201 + sim::rnd(50) : 1 + sim::rnd(90);
		if (o.err == ECANCELED) o.err = 155;		// the same code
		if (o.err == ECONNRESET) o.err = 156;
	}

	// one operation after the other
	rf::future_t<> proc(int p, std::vector<Op*> ops, Hosts* H)
	{
		for (Op* o : ops) co_await run_sig(p, *o, H, o->how >> 3 & 1);
	}
	rf::future_t<> completer(std::vector<Op*> ops)
	{
		for (Op* o : ops)
		{
			while (!o->ready.load()) co_await rf::yield();
			fire(*o);
		}
	}
}

void scenario_main(const char* family)
{
	bool wide = !strcmp(family, "token_wide");
	if (wide) sim::plain_strategy();
	int nh = wide ? 1 : 1 + sim::rnd(2);
	int np = wide ? 1 + sim::rnd(8) : 1 + sim::rnd(3);
	std::vector<std::unique_ptr<Op>> all;
	std::vector<std::vector<Op*>> mine(np), late(np);
	std::vector<int> host;
	std::vector<std::vector<Op*>> thr, co;
	for (int p = 0; p < np; ++p)
	{
		host.push_back(1 + sim::rnd(nh));
		int n = wide ? 2 + sim::rnd(12) : 1 + sim::rnd(3);
		std::vector<Op*> t, c;
		for (int i = 0; i < n; ++i)
		{
			all.push_back(std::make_unique<Op>());
			Op* o = all.back().get();
			o->k = (int)all.size();
			o->sig = sim::rnd(NSIGS);
			describe(*o);
			o->v = { 1 + (int)sim::rnd(900), 1 + (int)sim::rnd(900) };
			o->how = sim::rnd(64);
			o->where = sim::rnd(5);
			if (wide && o->where == 2 && sim::chance(3, 4)) o->where = 3;
			if (!late[p].empty() && (o->where == 2 || o->where == 3)) o->where = 4;	// nobody spins while a late one is pending
			mine[p].push_back(o);
			if (o->where == 2) t.push_back(o);
			if (o->where == 3) c.push_back(o);
			if (o->where == 4) late[p].push_back(o);
		}
		if (!t.empty()) thr.push_back(t);
		if (!c.empty()) co.push_back(c);
	}
	sim::cfg("\"host\":%s,\"n\":%d", js(host).c_str(), (int)all.size());
	Hosts H(nh);
	for (int p = 0; p < np; ++p)
		H.on_start(host[p] - 1, [p, &H, &host, &mine] { H[host[p] - 1] + proc(p + 1, mine[p], &H); });
	for (auto& t : thr)
		sim::spawn([&t] { for (Op* o : t) { while (!o->ready.load()) sim::yield_hint(); fire(*o); } });
	for (auto& c : co)
	{
		int h = sim::rnd(nh);
		H.on_start(h, [h, &c, &H] { H[h] + completer(c); });
	}
	// the late ones: their awaiters have come to rest before a thread invokes the handlers
	H.run();
	auto next_late = [&late] {
		for (auto& l : late) for (Op* x : l) if (x->ready.load() && x->fire) return x;
		return (Op*)nullptr;
	};
	std::atomic<Op*> go_on{ nullptr };
	bool stop = false;
	if (next_late())
	{
		sim::spawn([&] {
			while (!stop)
			{
				Op* o = go_on.exchange(nullptr);
				if (o) fire(*o);
				else sim::poll([](void*) { return false; }, nullptr);
			}
		});
		while (Op* o = next_late())
		{
			go_on = o;
			sim::wake_all();
			sim::run_until_quiescent();
			if (sim::deadlocked()) sim::fault("deadlock");
			sim::ev("\"Q\"");
		}
		stop = true;
	}
	H.finish();
	for (auto& o : all) o->kept.clear();
}
