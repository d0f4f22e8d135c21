#!/usr/bin/env python3
"""Development tool: plants a bug of the list below in a scratch copy of /repo and runs checks against it.
   bugs.py list | check ID... [PROP] | test ID...   (no registered command uses this file)
"""
import sys, os, subprocess, shutil, json, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/librf/src/"
S = "source/"
BUGS = []


def bug(id, prop, desc, *edits):
    BUGS.append((id, prop, desc, edits))


bug("c01a", "C01", "value handed to a waiting reader after it has been made ready",
    (I + "channel_v2.inl", """			*state->_value = std::move(val);

			state->on_notify();
			return true;""", """			state->on_notify();
			*state->_value = std::move(val);
			return true;"""))
bug("c01b", "C01", "ring queue moves the value before it knows whether there is room",
    (I + "ring_queue.h", """		if (nextWriteIndex == m_readIndex)
			return false;

		assert(m_writeIndex < m_bufferSize);

		m_bufferPtr[m_writeIndex] = std::move(value);
""", """		assert(m_writeIndex < m_bufferSize);

		m_bufferPtr[m_writeIndex] = std::move(value);
		if (nextWriteIndex == m_readIndex)
			return false;

"""))
bug("c01c", "C01", "ring index kept in 8 bits: capacities of 255 and more",
    (I + "channel_v2.inl", "ring_queue<value_type, _Optional, uint32_t>", "ring_queue<value_type, _Optional, uint8_t>"))
bug("c01d", "C01", "reader takes a suspended writer's value ahead of the buffered ones (swap order)",
    (I + "channel_v2.inl", """			if (_values.try_pop(val))
			{
				awake_one_writer_();
				return true;
			}""", """			if (_write_awakes.size() > 1 && awake_one_writer_(val))
				return true;
			if (_values.try_pop(val))
			{
				awake_one_writer_();
				return true;
			}"""))
bug("c02a", "C02", "multi-threaded channel does not look again under the lock before it suspends",
    (I + "channel_v2.inl", """			scoped_lock<lock_type> lock_(_channel->_lock);

			if (_channel->try_read_nolock(_value))
			{
				_channel = nullptr;
				return false;
			}

			_state = new""", """			scoped_lock<lock_type> lock_(_channel->_lock);

			if (!optimization_for_multithreading && _channel->try_read_nolock(_value))
			{
				_channel = nullptr;
				return false;
			}

			_state = new"""))
bug("c02b", "C02", "capacity rounded up to a power of two",
    (I + "ring_queue.h", """		: m_bufferPtr(new optional_type[sz + 1])
		, m_bufferSize(static_cast<size_type>(sz + 1))""", """		: m_bufferPtr(new optional_type[sz < 8 ? sz + 1 : (sz | 15) + 1])
		, m_bufferSize(static_cast<size_type>(sz < 8 ? sz + 1 : (sz | 15) + 1))"""))
bug("c02c", "C02", "the lock is given up between the failed attempt and the registration of a writer",
    (I + "channel_v2.inl", """			_state = new state_type(_channel, _value);
			_state->on_await_suspend(handler);
			_channel->add_write_list_nolock(_state.get());""", """			_channel->_lock.unlock();
			_state = new state_type(_channel, _value);
			_state->on_await_suspend(handler);
			_channel->_lock.lock();
			_channel->add_write_list_nolock(_state.get());"""))
bug("c02d", "C02", "waiting writers served last-come-first-served",
    (I + "channel_v2.inl", "_write_awakes.push_back(state);", "_write_awakes.push_front(state);"))
bug("e01a", "E01", "a signal given to a waiter that has just timed out is dropped",
    (S + "event_v2.cpp", """				if (state->on_notify(this))
					return;""", """				(void)state->on_notify(this);
				return;"""))
bug("e01b", "E01", "reset discards one remembered signal only",
    (S + "event_v2.cpp", "			_counter.store(0, std::memory_order_release);", "			if (_counter.load() > 0) _counter.fetch_sub(1);"))
bug("e01c", "E01", "remembered signals saturate",
    (S + "event_v2.cpp", "			_counter.fetch_add(1, std::memory_order_acq_rel);\n		}", "			if (_counter.load() < 16) _counter.fetch_add(1, std::memory_order_acq_rel);\n		}"))
bug("e02a", "E02", "signal_all forgets remembered signals",
    (S + "event_v2.cpp", "				(void)state->on_notify(this);\n			}", "				(void)state->on_notify(this);\n			}\n			_counter.store(0);"))
bug("e02b", "E02", "signal_all stops at a waiter that has just timed out",
    (S + "event_v2.cpp", "				(void)state->on_notify(this);\n			}", "				if (!state->on_notify(this)) break;\n			}"))
bug("e03a", "E03", "deadline truncated to milliseconds",
    (I + "event_v2.inl", """this->_state->add_timeout_timer(_tp);""", """this->_state->add_timeout_timer(std::chrono::time_point_cast<std::chrono::milliseconds>(_tp));"""))
bug("e03b", "E03", "a past deadline gives up although signalled",
    (I + "event_v2.inl", """			if (!_Btype::await_suspend2(handler""", """			if (_tp <= clock_type::now() - std::chrono::seconds(1)) return false;
			if (!_Btype::await_suspend2(handler"""))
bug("e03c", "E03", "time-out does not claim the wait atomically",
    (S + "event_v2.cpp", """			event_v2_impl** oldValue = _value.load(std::memory_order_acquire);
			if (oldValue != nullptr && _value.compare_exchange_strong(oldValue, nullptr, std::memory_order_acq_rel))
			{
				event_v2_impl* evt""", """			event_v2_impl** oldValue = _value.load(std::memory_order_acquire);
			if (oldValue != nullptr)
			{
				_value.store(nullptr);
				event_v2_impl* evt"""))
bug("e04a", "E04", "after a time-out the other events keep serving the dead wait_all",
    (S + "event_v2.cpp", "if (_counter <= 0) return false;\n			assert(idx", "if (_counter <= 0) return true;\n			assert(idx"),
    (S + "event_v2.cpp", "sub.second != nullptr)\n					sub.second->remove", "sub.second != nullptr && values.size() < 2)\n					sub.second->remove"))
bug("e04b", "E04", "wait_all locks the events one after another in the order given",
    (I + "event_v2.inl", """			batch_lock_t<ref_lock_type> lock_(lockes);

			intptr_t idx = 0;""", """			for (auto& l : lockes) l.get().lock();
			batch_lock_t<ref_lock_type> lock_(std::adopt_lock, lockes);

			intptr_t idx = 0;"""))
bug("e04c", "E04", "wait_all counts an event twice when it was already signalled",
    (S + "event_v2.cpp", "			_values[idx].first = nullptr;\n\n			if (--_counter == 0)", "			_values[idx].first = nullptr;\n\n			if (--_counter == 0 || (_counter == 1 && _values.size() > 2 && _values[0].first == nullptr))"))
bug("m01a", "M01", "nested coroutine locks in its own name when it has its own scheduler",
    (I + "mutex_v2.inl", "			_mutex->unlock(parent->get_root());", "			_mutex->unlock(parent);"))
bug("m01b", "M01", "unlock decrements before it checks the owner",
    (S + "mutex_v2.cpp", "			if (oldValue == sch)\n			{\n				if (_counter.fetch_sub(1, std::memory_order_relaxed) == 1)", "			if (oldValue == sch || _counter.load() > 2)\n			{\n				if (_counter.fetch_sub(1, std::memory_order_relaxed) == 1)"))
bug("m01c", "M01", "ownership check outside the lock",
    (S + "mutex_v2.cpp", "			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_lock);\n			return try_lock_lockless(sch);", "			if (_owner.load(std::memory_order_acquire) != nullptr)\n			{\n				scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_lock);\n				return try_lock_lockless(sch);\n			}\n			return try_lock_lockless(sch);"))
bug("m02a", "M02", "hand-over to a waiter that has timed out leaves the recursion count",
    (S + "mutex_v2.cpp", "						_counter.fetch_sub(1, std::memory_order_relaxed);\n					}", "					}"))
bug("m02b", "M02", "release gives up after the first dead waiter",
    (S + "mutex_v2.cpp", "						_counter.fetch_sub(1, std::memory_order_relaxed);\n					}", "						_counter.fetch_sub(1, std::memory_order_relaxed);\n						if (_wait_awakes.size() == 1) break;\n					}"))
bug("m02c", "M02", "waiter is not registered when the mutex became free meanwhile: lock given up in between",
    (I + "mutex_v2.inl", """			_state = new detail::state_mutex_t(_mutex);
			_state->on_await_suspend(handler, parent->get_scheduler(), _root);""", """			_mutex->_lock.unlock();
			_state = new detail::state_mutex_t(_mutex);
			_state->on_await_suspend(handler, parent->get_scheduler(), _root);
			_mutex->_lock.lock();"""))
bug("m03a", "M03", "timed-out lock still counts as acquired later: hand-over not claimed atomically",
    (S + "mutex_v2.cpp", """			mutex_v2_impl** oldValue = _value.load(std::memory_order_acquire);
			if (oldValue != nullptr && _value.compare_exchange_strong(oldValue, nullptr, std::memory_order_acq_rel))
			{
				*oldValue = nullptr;
				_thandler.reset();""", """			mutex_v2_impl** oldValue = _value.load(std::memory_order_acquire);
			if (oldValue != nullptr)
			{
				_value.store(nullptr);
				*oldValue = nullptr;
				_thandler.reset();"""))
bug("m03b", "M03", "try_lock_for with an address ends one try early",
    (S + "mutex_v2.cpp", "			} while (clock_type::now() <= tp);", "			} while (clock_type::now() + std::chrono::milliseconds(1) <= tp);"))
bug("m04a", "M04", "failed attempt keeps the first of the tried mutexes",
    (I + "without_deadlock_assemble.inl", """				{ // try_lock failed, backout
					_Unlock_locks(_First, _Next, _LkN);""", """				{ // try_lock failed, backout
					_Unlock_locks(_Next - _First > 1 ? _First + 1 : _First, _Next, _LkN);"""))
bug("m04b", "M04", "early unlock of a guard is forgotten",
    (I + "mutex_v2.inl", "					mtx.unlock(_MAA._owner);\n				_MAA._owner = nullptr;", "					mtx.unlock(_MAA._owner);\n				if (_MAA._mutex.size() < 2) _MAA._owner = nullptr;"))
bug("m04c", "M04", "multi-lock of three backs out without the hard lock",
    (I + "without_deadlock_assemble.inl", """		// we didn't get all the locks, backout
		_Unlock_locks(_Backout_start, _Hard_lock + 1, _LkN);""", """		// we didn't get all the locks, backout
		_Unlock_locks(_Backout_start, _Hard_lock > 1 ? _Hard_lock : _Hard_lock + 1, _LkN);"""))
bug("s01a", "S01", "queue swapped outside the lock",
    (S + "scheduler.cpp", """				return false;

			std::swap(_cached_states, _runing_states);
		}""", """				return false;
		}
		std::swap(_cached_states, _runing_states);"""))
bug("s01b", "S01", "readiness looked at before the lock is taken",
    (I + "state.inl", """		scoped_lock<lock_type> __guard(this->_mtx);

		if (this != parent_state)
		{
			this->_parent = parent_state;
			this->_scheduler = sch;
		}

		if (!this->_coro)
			this->_coro = handler;

		if (sch != nullptr && this->is_ready())""", """		const bool ready = this->is_ready();
		scoped_lock<lock_type> __guard(this->_mtx);

		if (this != parent_state)
		{
			this->_parent = parent_state;
			this->_scheduler = sch;
		}

		if (!this->_coro)
			this->_coro = handler;

		if (sch != nullptr && ready)"""))
bug("s02a", "S02", "a small batch also runs what became ready meanwhile",
    (S + "scheduler.cpp", """		for (state_sptr& sptr : _cached_states)
			sptr->resume();
""", """		for (state_sptr& sptr : _cached_states)
			sptr->resume();
		if (_cached_states.size() > 2)
		{
			_cached_states.clear();
			{
				scoped_lock<spinlock> __guard(_lock_running);
				std::swap(_cached_states, _runing_states);
			}
			for (state_sptr& sptr : _cached_states)
				sptr->resume();
		}
"""))
bug("s02b", "S02", "batch run from the back",
    (S + "scheduler.cpp", """		for (state_sptr& sptr : _cached_states)
			sptr->resume();
""", """		for (size_t i = 0, n = _cached_states.size(); i < n; ++i)
			_cached_states[n > 3 ? n - 1 - i : i]->resume();
"""))
bug("s03a", "S03", "run_until_notask ignores pending timers",
    (S + "scheduler.cpp", "			if (unlikely(!_timer->empty())) continue;", "			if (unlikely(!_timer->empty() && !empty())) continue;\n			if (false) continue;"),
    (I + "scheduler.h", "_runing_states.empty() && _timer->empty();", "_runing_states.empty();"))
bug("s03b", "S03", "timer_manager::empty looks at running timers only",
    (I + "timer.h", "return _runing_timers.empty() && _added_timers.empty();", "return _runing_timers.empty();"))
bug("s03c", "S03", "task entered after the coroutine has been made ready",
    (S + "scheduler.cpp", """			_ready_task.emplace(sptr, task);
		}

		//如果是单独的future，没有被co_await过，则handler是nullptr。
		if (sptr->has_handler())
		{
			add_generator(sptr);
		}""", """			if (!sptr->has_handler()) _ready_task.emplace(sptr, task);
		}

		//如果是单独的future，没有被co_await过，则handler是nullptr。
		if (sptr->has_handler())
		{
			add_generator(sptr);
			scoped_lock<spinlock> __guard(_lock_ready);
			_ready_task.emplace(sptr, task);
		}"""))
bug("s04a", "S04", "only the direct caller moves along",
    (S + "state.cpp", "			_parent->switch_scheduler_await_suspend(sch);\n\n		return true;", "			_parent->_scheduler = sch;\n\n		return true;"))
bug("s05a", "S05", "an unsuccessful local_scheduler_t unbinds the thread",
    (S + "scheduler.cpp", """		if (th_scheduler_ptr == _scheduler_ptr)
			th_scheduler_ptr = nullptr;
		delete""", """		th_scheduler_ptr = nullptr;
		delete"""))
bug("s06a", "S06", "stop request counts timers of update only",
    (S + "scheduler.cpp", "		this->_timer->clear();\n	}\n\n/*", "		if (!_ready_task.empty()) this->_timer->clear();\n	}\n\n/*"))
bug("f01b", "F01", "value published before it is constructed",
    (I + "state.inl", """			new (&this->_value) value_type(std::forward<U>(val));
			this->_has_value.store(result_type::Value, std::memory_order_release);""", """			this->_has_value.store(result_type::Value, std::memory_order_release);
			new (&this->_value) value_type(std::forward<U>(val));"""),
    (I + "state.inl", """	auto state_t<_Ty>::future_await_resume() -> value_type
	{
		scoped_lock<lock_type> __guard(this->_mtx);
""", """	auto state_t<_Ty>::future_await_resume() -> value_type
	{
"""))
bug("f02a", "F02", "unhandled exceptions are rebuilt from their message",
    (I + "promise.h", "			this->ref_state()->set_exception(std::current_exception());\n		}\n\n		void cancel", """			try { throw; }
			catch (const std::logic_error& e) { this->ref_state()->set_exception(std::make_exception_ptr(std::logic_error(e))); }
			catch (...) { this->ref_state()->set_exception(std::current_exception()); }
		}

		void cancel"""))
bug("f02b", "F02", "exception of a reference-valued future is kept as value after a value was yielded",
    (I + "state.inl", """			_value.~value_type();
		default:
			new (&this->_exception) std::exception_ptr(std::move(e));""", """			_value.~value_type();
			new (&this->_exception) std::exception_ptr(std::move(e));
			break;
		default:
			new (&this->_exception) std::exception_ptr(std::move(e));"""))
bug("f03a", "F03", "an exception nobody looked at is not destroyed",
    (I + "state.h", """			case result_type::Exception:
				_exception.~exception_ptr();
				break;""", """			case result_type::Exception:
				break;"""))
bug("f03b", "F03", "the task keeps a reference to the callable instead of its own copy",
    (I + "rf_task.h", "			: _context(std::move(ctx))\n		{\n			decltype(auto) f = _context();", "			: _context(ctx)\n		{\n			decltype(auto) f = ctx();"))
bug("w01a", "W01", "results of a range written one place off when the range has more than three",
    (I + "when_v2.h", "sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values[_Idx]);", "sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values[_Idx > 3 ? 7 - _Idx : _Idx]);"))
bug("w01b", "W01", "completion counted before the result is stored",
    (I + "when_v2.h", """			if constexpr (std::is_same_v<_Ty, ignore_type>)
				co_await awaitor;
			else
				value = co_await awaitor;
			state->on_notify_one();
		};

		template<class _Fuck""", """			if constexpr (std::is_same_v<_Ty, ignore_type>)
			{
				co_await awaitor;
				state->on_notify_one();
			}
			else
			{
				auto result = co_await awaitor;
				state->on_notify_one();
				value = std::move(result);
			}
		};

		template<class _Fuck"""))
bug("w02a", "W02", "the result of the winner is stored after the notification",
    (I + "when_v2.h", """					value->second = std::move(result);

					state->on_notify_one();""", """					state->on_notify_one();

					value->second = std::move(result);"""))
bug("w02b", "W02", "the winner is not decided atomically",
    (I + "when_v2.h", """				decltype(auto) result = co_await awaitor;

				intptr_t oldValue = -1;
				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
				{""", """				decltype(auto) result = co_await awaitor;

				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).load() == -1)
				{
					reinterpret_cast<std::atomic<intptr_t>&>(value->first).store(idx);"""))
bug("k01a", "K01", "destructor does not wait for a callback running in another thread",
    (I + "stop_token.h", "        if (signalling_ == std::this_thread::get_id())\n", "        if (signalling_ == std::this_thread::get_id() || head_ != nullptr)\n"))
bug("k01b", "K01", "registration races with the request: checked without the lock",
    (I + "stop_token.h", "            if (is_stop_requested(old_state))\n            {\n                return false;\n            }\n            while (is_locked(old_state))", "            while (is_locked(old_state))"))
bug("k01c", "K01", "self-destroying callback touched after its end",
    (I + "stop_token.h", "                *cb->is_removed = true;", "                *cb->is_removed = cb->next == nullptr;"))
bug("k02a", "K02", "copying a source counts as a token",
    (I + "stop_token.h", "        state_.fetch_add(kSourceRefIncrement, std::memory_order_relaxed);", "        state_.fetch_add(kSourceRefIncrement + kTokenRefIncrement, std::memory_order_relaxed);"))
bug("k02b", "K02", "moving assignment of a source swaps",
    (I + "stop_token.h", "        stop_source tmp{std::move(other)};\n        swap(tmp);\n        return *this;", "        swap(other);\n        return *this;"))
bug("g01a", "G01", "generator task advances twice when it is alone",
    (S + "state.cpp", "			_coro.resume();\n			if (likely(!_coro.done()))\n			{", "			_coro.resume();\n			if (!_coro.done() && _count_hint++ % 8 == 7) _coro.resume();\n			if (likely(!_coro.done()))\n			{"),
    (I + "state.h", "		state_generator_t() = default;\n	public:", "		state_generator_t() = default;\n		unsigned _count_hint = 0;\n	public:"))
bug("l01a", "L01", "expected value not reset after waiting",
    (I + "spinlock.h", "					val = FREE_VALUE;\n				} while", "				} while"))
bug("l01b", "L01", "batch unlock skips",
    (I + "spinlock.h", "				_LkN = nullptr;\n				detail::scoped_lock_range_lock_impl::_Unlock_locks(0, (int)_LA.size(), _LA);", "				detail::scoped_lock_range_lock_impl::_Unlock_locks(0, (int)_LA.size(), _LA);\n				if (_LA.size() < 3) _LkN = nullptr;"))
bug("t01a", "T01", "timers of equal milliseconds run in order of addition",
    (I + "timer.h", "return add_(std::make_shared<timer_target>(clock_type::now() + dt_,", "return add_(std::make_shared<timer_target>(std::chrono::time_point_cast<std::chrono::milliseconds>(clock_type::now() + dt_),"))
bug("t01b", "T01", "stop answers true for a timer that is already running its callback",
    (S + "timer.cpp", "		auto cb = std::move(sptr->cb);\n		if (sptr", "		auto cb = std::move(sptr->cb);\n		if (sptr->st.load() != timer_target::State::Invalid && cb) { cb(canceld); sptr->st.store(timer_target::State::Invalid); return; }\n		if (sptr"))
bug("t02a", "T02", "sleep_until rounds to milliseconds",
    (I + "sleep.h", """		co_await sleep_until_(std::chrono::time_point_cast<std::chrono::system_clock::duration>(tp_), *sch);""", """		co_await sleep_until_(std::chrono::time_point_cast<std::chrono::milliseconds>(tp_), *sch);"""))
bug("t02b", "T02", "sleep of a duration ignores the sub-second part beyond a minute",
    (S + "sleep.cpp", """				if (cancellation_requested)
					awaitable.throw_exception""", """				if (cancellation_requested && awaitable._state->has_handler())
					awaitable.throw_exception"""))

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs2
bugs2.register(bug)


def apply(root, b):
    for f, old, new in b[3]:
        p = os.path.join(root, f)
        raw = open(p, "rb").read()
        crlf = b"\r\n" in raw
        o, n = old.encode(), new.encode()
        if crlf:
            o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
        if raw.count(o) < 1:
            raise SystemExit(f"{b[0]}: {f}: text not found")
        if raw.count(o) > 1:
            print(f"  note {b[0]}: {f}: {raw.count(o)} places, the last is changed" if False else "", end="")
        i = raw.find(o)
        raw = raw[:i] + n + raw[i + len(o):]
        open(p, "wb").write(raw)


def copy(b, light=True):
    d = f"/tmp/bug_{b[0]}"
    shutil.rmtree(d, ignore_errors=True)
    if light:
        os.makedirs(d)
        for x in ("include", "source", "asio"):
            shutil.copytree(f"/repo/{x}", f"{d}/{x}")
    else:
        subprocess.run(["cp", "-a", "/repo", d], check=True)
    apply(d, b)
    return d


def check(b, prop=None):
    d = copy(b)
    t = time.time()
    r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import check; check.PROP = {k: (f, []) for k, (f, m) in check.PROP.items()}; sys.exit(check.check(%r, 'quick'))" % (HERE, prop or b[1])], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "rror" in l]
    print(f"{b[0]:6} {prop or b[1]} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and any(l.startswith('VIOLATION') for l in lines) else 'MISSED' if r.returncode == 0 else 'OTHER'}"
          f" {time.time()-t:.0f}s  {(lines or [''])[0][:150]}", flush=True)
    return r.returncode


def test(b):
    """build and stable tests of a full copy with the bug"""
    d = copy(b, light=False)
    vp = f"{d}.vp"
    shutil.rmtree(vp, ignore_errors=True)
    shutil.copytree("/opt/vp", vp)
    for f in ("build.sh", "test.sh"):
        s = open(f"{vp}/{f}").read().replace("/repo", d).replace("/opt/vp/build.sh", f"{vp}/build.sh")
        open(f"{vp}/{f}", "w").write(s)
    shutil.rmtree(f"{d}/_build", ignore_errors=True)
    r = subprocess.run(["bash", f"{vp}/test.sh", f"{vp}/out.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        o = json.load(open(f"{vp}/out.json"))
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = st - set(o["passed"])
    except Exception as e:
        bad = {"nothing: " + str(e)}
    print(f"{b[0]:6} tests {'PASS' if not bad else 'FAIL ' + ' '.join(sorted(bad))}", flush=True)
    return d, vp, bad


def seed(b, needs=None):
    """confirms the bug in a full copy, with its demonstration, and completes /verif/seeded/ID"""
    sd = f"{HERE}/seeded/{b[0]}"
    d, vp, bad = test(b)
    try:
        if bad:
            return False
        diff = subprocess.run(["git", "-C", d, "diff", "--no-ext-diff"], stdout=subprocess.PIPE).stdout
        orig = True
        for f in {e[0] for e in b[3]}:
            base = subprocess.run(["git", "-C", "/repo", "show", "0fd9178:" + f], stdout=subprocess.PIPE).stdout
            have = {x.strip() for x in base.splitlines()}
            fd = subprocess.run(["git", "-C", d, "diff", "-U0", "--", f], stdout=subprocess.PIPE).stdout
            gone = [x[1:].strip() for x in fd.splitlines() if x.startswith(b"-") and not x.startswith(b"---")]
            if gone and not any(x in have for x in gone if len(x) > 3):
                orig = False
        rcs = []
        for i in range(3):
            r = subprocess.run(["bash", f"{sd}/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            rcs.append(r.returncode)
        clean = [subprocess.run(["bash", f"{sd}/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode for i in range(3)]
        ok = all(rcs) and 3 not in rcs and not any(clean) and orig
        print(f"{b[0]:6} demo with the bug {rcs}, without {clean}, original lines {orig}: {'KEPT' if ok else 'NOT KEPT'}", flush=True)
        if ok:
            open(f"{sd}/patch.diff", "wb").write(diff)
            m = {"property": b[1], "needs": NEEDS.get(b[0], ""), "what_it_breaks": b[2]}
            json.dump(m, open(f"{sd}/meta.json", "w"), indent=1)
        return ok
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(vp, ignore_errors=True)


NEEDS = {
    'a01a': 'an operation of one value that ends with asio::error::eof (a stream that was closed), its value being partial',
    'a01b': 'an operation with two or more values that fails with a code that is not of the system category',
    'c01a': 'a reader already waiting in the channel, whose host thread resumes it between the notification and the store of the value',
    'c01b': 'a move-only or moved-from-visible value, a full cached channel, and a writer that has to wait (its value has been moved away by the failed attempt)',
    'e01b': 'two or more remembered signals before the reset',
    'e02a': 'signal_all() on an event that remembers signals nobody has waited for',
    'e03a': 'a deadline that is not a whole number of milliseconds',
    'e04b': 'two coroutines in different threads awaiting wait_all over the same events in opposite orders at the same moment',
    'f02a': 'an exception of a class derived from std::logic_error that crosses an await (its dynamic type is lost)',
    'f03a': 'a future whose result is an exception that nobody ever looks at',
    'g01a': 'a generator task that yields at least eight times, with other work of the scheduler in between',
    'k01a': 'two callbacks registered; the second is destroyed in one thread while request_stop in another thread is running the first or itself',
    'k02a': 'a copied stop_source; all sources dropped afterwards, with a token kept (or none left)',
    'l01a': "three parties: a spin lock released and taken again between a waiter's two looks at it",
    'm02a': 'a timed lock of a recursive mutex that has timed out while the owner unlocks',
    'm04a': 'a multi-lock attempt that has already locked two or more when a later mutex is found taken',
    'm04b': 'unlock of a batch guard before its destruction, with the mutexes taken by someone else in between',
    's02a': 'three coroutines ready in one batch that make others ready in that batch',
    's03b': 'a timer that was added but not yet moved to the running ones at the moment the loop looks (run_until_notask)',
    's04a': 'a scheduler switch at least two calls deep in a chain of awaited coroutines',
    's05a': 'a local_scheduler_t created on a thread that is already bound, destroyed while the first binding is in use',
    't01a': 'two timers whose deadlines fall in one millisecond, the later one added first',
    't02a': 'sleep_until with a deadline that is not a whole number of milliseconds',
    'w02a': 'the awaiter of when_any is in another thread and looks at the result between notification and store',
}


def by(id):
    for b in BUGS:
        if b[0] == id:
            return b
    raise SystemExit("no bug " + id)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "list":
        for b in BUGS:
            print(b[0], b[1], b[2])
    elif a[0] == "apply":
        for b in BUGS:
            shutil.rmtree(copy(b))
            print("ok", b[0])
    elif a[0] == "check":
        ids = a[1:] or [b[0] for b in BUGS]
        for i in ids:
            check(by(i))
    elif a[0] == "try":     # try ID FAMILY COUNT
        d = copy(by(a[1]))
        r = subprocess.run([sys.executable, HERE + "/check.py", "--try"] + a[2:], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        shutil.rmtree(d, ignore_errors=True)
        print(a[1], *[l[:300] for l in r.stdout.splitlines()[:4]], sep="\n   ")
    elif a[0] == "seed":
        for i in a[1:]:
            seed(by(i))
    elif a[0] == "test":
        for i in a[1:] or [b[0] for b in BUGS]:
            d, vp, bad = test(by(i))
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(vp, ignore_errors=True)
