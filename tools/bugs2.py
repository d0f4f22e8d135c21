"""second batch of planted bugs (see bugs.py)"""
I = "include/librf/src/"
S = "source/"


def register(bug):
    bug("c01f", "C01", "a plain thread's write tries once only",
        (I + "channel_v2.inl", "while(!_channel->try_write(_value));", "(void)_channel->try_write(_value);"))
    bug("c01g", "C01", "the early attempt of a write does not mark the write as done",
        (I + "channel_v2.inl", """				if (_channel->try_write_nolock(_value))
				{
					_channel = nullptr;
					return true;
				}""", """				if (_channel->try_write_nolock(_value))
					return true;"""))
    bug("c01h", "C01", "a value taken from a waiting writer is copied after the writer was made ready",
        (I + "channel_v2.inl", """			val = std::move(*writer->_value);

			writer->on_notify();
			return true;""", """			writer->on_notify();

			val = std::move(*writer->_value);
			return true;"""))
    bug("c02f", "C02", "a read wakes a writer only when it has emptied the buffer",
        (I + "channel_v2.inl", """			if (_values.try_pop(val))
			{
				awake_one_writer_();""", """			if (_values.try_pop(val))
			{
				if (_values.empty())
					awake_one_writer_();"""))
    bug("e01f", "E01", "signal looks at the waiters before it takes the lock",
        (S + "event_v2.cpp", """		LIBRF_API void event_v2_impl::signal() noexcept
		{
""", """		LIBRF_API void event_v2_impl::signal() noexcept
		{
			if (_wait_awakes.empty())
			{
				_counter.fetch_add(1, std::memory_order_acq_rel);
				return;
			}
"""))
    bug("e01g", "E01", "the wait looks for a signal before it takes the lock only",
        (I + "event_v2.inl", """			if (evt->try_wait_one())
			{
				return false;
			}

			_state = new detail::state_event_t(_event);""", """			_state = new detail::state_event_t(_event);"""))
    bug("e02d", "E02", "signal_all with nobody waiting is remembered when signals are remembered already",
        (S + "event_v2.cpp", """				(void)state->on_notify(this);
			}""", """				(void)state->on_notify(this);
			}
			if (_counter.load() > 1) _counter.fetch_add(1);"""))
    bug("e03d", "E03", "time-out removes the waiter but answers for the event",
        (S + "event_v2.cpp", """				if (evt != nullptr)
					evt->remove_wait_list(this);
				*oldValue = nullptr;""", """				if (evt != nullptr)
					evt->remove_wait_list(this);
				if (evt == nullptr || !evt->is_signaled())
					*oldValue = nullptr;"""))
    bug("e04d", "E04", "timed wait_all: the timer is not stopped and the result is overwritten",
        (S + "event_v2.cpp", """				if (_counter <= 0) return false;

				_counter = 0;
				*_result = false;""", """				if (_counter < 0) return false;

				_counter = 0;
				*_result = false;"""))
    bug("e04f", "E04", "wait_all: result looks at the first missing event only",
        (S + "event_v2.cpp", """			if (_counter <= 0) return false;
			assert(idx < static_cast<intptr_t>(_values.size()));

			_values[idx].first = nullptr;
""", """			if (_counter <= 0) return false;
			assert(idx < static_cast<intptr_t>(_values.size()));

			if (_values[idx].first == nullptr) return false;
			_values[idx].first = nullptr;
			if (_counter == 3) --_counter;
"""))
    bug("m01d", "M01", "a recursive try_lock is not counted",
        (S + "mutex_v2.cpp", """			if (oldValue == sch)
			{
				_counter.fetch_add(1, std::memory_order_relaxed);
				return true;
			}
			return false;""", """			if (oldValue == sch)
			{
				if (_counter.load() < 3)
					_counter.fetch_add(1, std::memory_order_relaxed);
				return true;
			}
			return false;"""))
    bug("m01e", "M01", "try_lock of a nested coroutine is in the name of its caller",
        (I + "mutex_v2.inl", "if (!_mutex->try_lock(parent->get_root()))", "if (!_mutex->try_lock(parent->get_parent() ? parent->get_parent() : parent))"))
    bug("m02d", "M02", "timed waiters go in front",
        (S + "mutex_v2.cpp", "			_wait_awakes.push_back(state);", "			if (_wait_awakes.size() > 1) _wait_awakes.insert(std::next(_wait_awakes.begin()), state);\n			else _wait_awakes.push_back(state);"))
    bug("m02e", "M02", "unlock gives the lock up while it hands over",
        (S + "mutex_v2.cpp", """					while (!_wait_awakes.empty())
					{
						state_mutex_ptr state = _wait_awakes.front();
						_wait_awakes.pop_front();
""", """					if (!_wait_awakes.empty())
					{
						_lock.unlock();
						_lock.lock();
					}
					while (!_wait_awakes.empty())
					{
						state_mutex_ptr state = _wait_awakes.front();
						_wait_awakes.pop_front();
"""))
    bug("m03d", "E03", "a timed event wait expires 1us early; was: a timed lock whose deadline has passed does not take a free mutex",
        (I + "event_v2.inl", """			if (!_Btype::await_suspend2(handler, [this]{ this->_state->add_timeout_timer(_tp);}))
			{
				return false;
			}
			return true;""", """			if (!_Btype::await_suspend2(handler, [this]{ this->_state->add_timeout_timer(_tp - std::chrono::microseconds(1));}))
			{
				return false;
			}
			return true;"""))
    bug("m04d", "M04", "back-out of an attempt forgets the locks before the hard one",
        (I + "without_deadlock_assemble.inl", "				_Backout_start = 0; // that is", "				_Backout_start = _Hard_lock > 1 ? 1 : 0; // that is"))
    bug("m04e", "M04", "moved-from guard of several mutexes keeps them",
        (I + "mutex_v2.inl", """		batch_unlock_t(batch_unlock_t&& _Right) = default;
		batch_unlock_t& operator = (batch_unlock_t&& _Right)
		{
			if (this != &_Right)
			{
				unlock();
				_MAA = std::move(_Right._MAA);""", """		batch_unlock_t(batch_unlock_t&& _Right) : _MAA(_Right._MAA) { if (_MAA._mutex.size() != 3) _Right._MAA._owner = nullptr; }
		batch_unlock_t& operator = (batch_unlock_t&& _Right)
		{
			if (this != &_Right)
			{
				unlock();
				_MAA = std::move(_Right._MAA);"""))
    bug("s01e", "S01", "the awaiter looks whether the result is there before it takes the lock",
        (I + "state.inl", """		scheduler_t* sch = parent_state->get_scheduler();

		scoped_lock<lock_type> __guard(this->_mtx);

		if (this != parent_state)
		{""", """		scheduler_t* sch = parent_state->get_scheduler();
		const bool ready = this->is_ready();

		scoped_lock<lock_type> __guard(this->_mtx);

		if (this != parent_state)
		{"""),
        (I + "state.inl", "		if (sch != nullptr && this->is_ready())", "		if (sch != nullptr && ready)"))
    bug("s02c", "S02", "yield continues when nothing new is ready",
        (I + "scheduler.h", "		timer_manager* timer() const noexcept", "		bool idle() const { scoped_lock<spinlock> __guard(_lock_running); return _runing_states.empty() && _cached_states.size() < 3; }\n		timer_manager* timer() const noexcept"),
        (I + "yield.h", "			counted_ptr<state_t<void>> _state = state", "			if (handler.promise().get_state()->get_scheduler()->idle()) return false;\n			counted_ptr<state_t<void>> _state = state"))
    bug("s03d", "S03", "empty() does not look at the timers",
        (I + "scheduler.h", "return _ready_task.empty() && _runing_states.empty() && _timer->empty();", "return _ready_task.empty() && _runing_states.empty();"))
    bug("s04c", "S04", "a switch of the root leaves its task behind",
        (S + "state.cpp", """			auto task_ptr = _scheduler->del_switch(this);

			_scheduler = sch;
			if (task_ptr != nullptr)
				sch->add_switch(std::move(task_ptr));
		}
		else
		{
			_scheduler = sch;
		}

		if (_parent""", """			_scheduler = sch;
		}
		else
		{
			_scheduler = sch;
		}

		if (_parent"""))
    bug("s04d", "S04", "the continuation is queued before the switch",
        (I + "switch_scheduler.h", """			if (sptr->switch_scheduler_await_suspend(_scheduler))
			{
				counted_ptr<state_t<void>> _state = state_future_t::_Alloc_state<state_type>(true);
				_state->set_value();
				_state->future_await_suspend(handler);

				return true;
			}
			return false;""", """			if (sptr->get_scheduler() == _scheduler) return false;
			counted_ptr<state_t<void>> _state = state_future_t::_Alloc_state<state_type>(true);
			_state->set_value();
			_state->future_await_suspend(handler);
			sptr->switch_scheduler_await_suspend(_scheduler);
			return true;"""))
    bug("s05b", "S05", "root of a chain deeper than two is its second",
        (I + "state.h", "			while (next != nullptr)\n			{", "			for (int depth = 0; next != nullptr && depth < 2; ++depth)\n			{"))
    bug("s05c", "S05", "a new scheduler always binds its thread",
        (S + "scheduler.cpp", """		if (th_scheduler_ptr == nullptr)
			th_scheduler_ptr = this;""", """		th_scheduler_ptr = this;"""))
    bug("s06b", "S06", "stop-all ends at the first task that was stopped already",
        (S + "scheduler.cpp", "			source.request_stop();\n		this->_timer", "			if (!source.request_stop()) break;\n		this->_timer"))
    bug("s06c", "S06", "timers are cancelled only when a task was told to stop",
        (S + "scheduler.cpp", "			source.request_stop();\n		this->_timer->clear();", "			source.request_stop();\n		if (!sources.empty() || _ready_task.size() < 2)\n			this->_timer->clear();"))
    bug("f01c", "F01", "void completion looks for the awaiter before it takes the lock",
        (S + "state.cpp", """	LIBRF_API void state_t<void>::set_value()
	{
		scoped_lock<lock_type> __guard(this->_mtx);
		this->_has_value.store(result_type::Value, std::memory_order_release);

		scheduler_t* sch = this->get_scheduler();
		if (sch != nullptr)
		{
			if (this->has_handler_skip_lock())""", """	LIBRF_API void state_t<void>::set_value()
	{
		const bool waited = this->has_handler();
		scoped_lock<lock_type> __guard(this->_mtx);
		this->_has_value.store(result_type::Value, std::memory_order_release);

		scheduler_t* sch = this->get_scheduler();
		if (sch != nullptr)
		{
			if (waited)"""))
    bug("f01d", "F01", "value of a reference future is made ready before it is stored",
        (I + "state.inl", """			this->_value = std::addressof(val);
			this->_has_value.store(result_type::Value, std::memory_order_release);""", """			this->_has_value.store(result_type::Value, std::memory_order_release);
			this->_value = std::addressof(val);"""),
        (I + "state.inl", """	auto state_t<_Ty&>::future_await_resume() -> reference_type
	{
		scoped_lock<lock_type> __guard(this->_mtx);
""", """	auto state_t<_Ty&>::future_await_resume() -> reference_type
	{
"""))
    bug("f02c", "F02", "an exception that arrives while the future is awaited by nobody is dropped at the second look",
        (S + "state.cpp", """		if (this->_exception)
			std::rethrow_exception(std::move(this->_exception));""", """		if (this->_exception && this->_parent)
			std::rethrow_exception(std::move(this->_exception));"""))
    bug("f03c", "F03", "a value yielded before the exception is not destroyed",
        (I + "state.inl", """		case result_type::Value:
			_value.~value_type();
		default:
			new (&this->_exception)""", """		default:
			new (&this->_exception)"""))
    bug("f03d", "F03", "the awaitable holds its state while it sets it",
        (I + "awaitable.h", """		void set_value(U&& value) const
		{
			counted_ptr<state_type> cp(std::move(this->_state));
			cp->set_value(std::forward<U>(value));""", """		void set_value(U&& value) const
		{
			this->_state->set_value(std::forward<U>(value));
			this->_state.reset();"""))
    bug("w01d", "W01", "completion of all between the look and the suspension is missed",
        (I + "when_v2.h", """				if (_state->_counter.load(std::memory_order_acquire) == 0)
					return false;
				_state->on_await_suspend(handler);""", """				_state->on_await_suspend(handler);"""))
    bug("w01e", "W01", "void results count twice in when_all of mixed items",
        (I + "when_v2.h", """			if constexpr(std::is_same_v<_Ty, ignore_type>)
				co_await awaitor;
			else
				value = co_await awaitor;
			state->on_notify_one();""", """			if constexpr(std::is_same_v<_Ty, ignore_type>)
				co_await awaitor;
			else
				value = co_await awaitor;
			if (state->_counter.load() == 1 || !state->has_handler())
				state->on_notify_one();
			else
				state->_counter.fetch_sub(1);"""))
    bug("w02d", "W02", "items that come after the winner are not run",
        (I + "when_v2.h", """			assert(idx >= 0);

			auto awaitor""", """			assert(idx >= 0);
			if (value->first >= 0) co_return;

			auto awaitor"""))
    bug("k01d", "K01", "callbacks registered during the request are lost",
        (I + "stop_token.h", """            if (!any_more)
            {
                return true;
            }
            lock();""", """            if (!any_more)
            {
                return true;
            }
            lock();
            if (head_ && head_->next && !head_->next->next) head_ = head_->next;"""))
    bug("k01e", "K01", "late registration runs the callback twice",
        (I + "stop_token.h", """                if (is_stop_requested(old_state))
                {
                    cb->execute();
                    return false;
                }
                else""", """                if (is_stop_requested(old_state))
                {
                    cb->execute();
                    return head_ != nullptr;
                }
                else"""))
    bug("k01f", "K01", "a callback is removed from the list without repairing its successor",
        (I + "stop_token.h", "                cb->next->prev = cb->prev;", "                cb->next->prev = cb->next->next ? cb->prev : cb->next->prev;"))
    bug("k02d", "K02", "assignment of a token to another of the same state counts it",
        (I + "stop_token.h", """        if (state_ != other.state_)
        {
            stop_token tmp{other};
            swap(tmp);
        }""", """        if (state_) state_->remove_token_reference();
        state_ = other.state_;
        if (state_) state_->add_token_reference();"""))
    bug("k02e", "K02", "stop stays possible as long as a token remains",
        (I + "stop_token.h", "        return is_stop_requested(state) || (state >= kSourceRefIncrement);", "        return is_stop_requested(state) || (state >= kTokenRefIncrement + kTokenRefIncrement);"))
    bug("g01c", "G01", "the returned value is skipped",
        (I + "generator.h", """			if (_Coro.done())
				_Coro = nullptr;
			else
				_Coro.resume();
			return *this;""", """			if (!_Coro.done())
				_Coro.resume();
			if (_Coro.done())
				_Coro = nullptr;
			return *this;"""))
    bug("g01d", "G01", "begin() of a generator that was looked at before goes one further",
        (I + "generator.h", """				if (!_Coro.done())
					_Coro.resume();
				if (_Coro.done())
					return{ nullptr };""", """				if (!_Coro.done())
					_Coro.resume();
				if (_Coro.done())
				{
					_Coro = nullptr;
					return{ nullptr };
				}"""))
    bug("l01c", "L01", "try_lock looks, then stores",
        (I + "spinlock.h", """			int val = FREE_VALUE;
			bool ret = lck.compare_exchange_strong(val, LOCKED_VALUE, std::memory_order_acq_rel);
""", """			bool ret = lck.load(std::memory_order_acquire) == FREE_VALUE;
			if (ret) lck.store(LOCKED_VALUE, std::memory_order_release);
"""))
    bug("l01d", "L01", "moved-from batch lock still unlocks",
        (I + "spinlock.h", """			, _LA(std::move(_Right._LA))
		{
			_Right._LkN = nullptr;""", """			, _LA(std::move(_Right._LA))
		{
			if (_LA.size() != 2) _Right._LkN = nullptr;"""))
    bug("t01c", "T01", "handle assignment keeps the old manager",
        (I + "timer.h", """			_manager = std::move(right_._manager);
			_target = std::move(right_._target);""", """			if (_manager.expired()) _manager = std::move(right_._manager);
			_target = std::move(right_._target);"""))
    bug("t01d", "T01", "a timer due exactly now waits for the next update",
        (S + "timer.cpp", "iter->first <= now_;", "iter->first < now_;"))
    bug("t01e", "T01", "of timers with equal deadlines only one is kept",
        (I + "timer.h", "typedef std::multimap<", "typedef std::map<"))
    bug("t01f", "T01", "clear leaves the timers that have not been looked at",
        (S + "timer.cpp", "			_atimer.swap(_added_timers);", "			if (!_runing_timers.empty()) _atimer.swap(_added_timers);"))
    bug("t01g", "T01", "a timer stopped before its first update gets no callback",
        (S + "timer.cpp", "					_stopped.push_back(sptr);", "					if (_stopped.empty()) _stopped.push_back(sptr);"))
    bug("t01h", "T01", "the clock is read before the added timers are moved and after each callback",
        (S + "timer.cpp", "				call_target_(sptr, false);\n				sptr.reset();", "				call_target_(sptr, false);\n				sptr.reset();\n				now_ += std::chrono::milliseconds(1);"))
    bug("t02d", "T02", "a cancelled sleep that is not awaited yet ends normally",
        (S + "sleep.cpp", "				if (cancellation_requested)\n", "				if (cancellation_requested && awaitable._state && awaitable._state->get_scheduler())\n"))
    A = "asio/asio_task_1.12.2.inl"
    bug("a01a", "A01", "an operation that ends with eof counts as a success",
        (A, """			void operator()(const asio::error_code& ec, Arg&& arg) const
			{
				if (!ec)
""", """			void operator()(const asio::error_code& ec, Arg&& arg) const
			{
				if (!ec || ec == asio::error::make_error_code(asio::error::eof))
"""))
    bug("a01b", "A01", "the category of the error is lost (several values)",
        (A, """				if (!ec)
					this->state_->set_value(std::make_tuple(std::forward<Args>(args)...));
				else
					this->state_->set_exception(std::make_exception_ptr(asio::system_error(ec)));""", """				if (!ec)
					this->state_->set_value(std::make_tuple(std::forward<Args>(args)...));
				else
					this->state_->set_exception(std::make_exception_ptr(asio::system_error(asio::error_code(ec.value(), asio::system_category()))));"""))
    bug("a01c", "A01", "the exception of a handler is wrapped (one value)",
        (A, """					this->state_->set_value(std::forward<Arg>(arg));
				else
					this->state_->set_exception(ex);""", """					this->state_->set_value(std::forward<Arg>(arg));
				else
					this->state_->set_exception(std::make_exception_ptr(ex));"""))
    bug("a01d", "A01", "state allocated as a coroutine's",
        (A, "_Alloc_state<state_type>(true))", "_Alloc_state<state_type>(false))"))
    bug("a01e", "A01", "copies of the handler have a state of their own",
        (A, "			promise_handler_base(const promise_handler_base &) = default;", "			promise_handler_base(const promise_handler_base &) : state_(::librf::state_future_t::_Alloc_state<state_type>(true)) {}"))
    bug("a01f", "A01", "values given as lvalues are moved from (several)",
        (A, "this->state_->set_value(std::make_tuple(std::forward<Args>(args)...));", "this->state_->set_value(std::tuple<Ts...>(std::move(args)...));"))
