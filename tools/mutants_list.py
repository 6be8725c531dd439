# (id, properties whose check should notice, [(file under bits/, old, new)])
PC = "portable_concurrency.cpp"; SS = "shared_state.h"; OC = "once_consumable_stack.hpp"; TH = "then.hpp"; FU = "future.hpp"; SF = "shared_future.hpp"
PR = "promise.h"; PT = "packaged_task.h"; AS = "async.h"; WA = "when_all.h"; WY = "when_any.h"; UT = "utils.h"; QU = "closable_queue.hpp"; TW = "timed_waiter.h"; UF = "unique_function.hpp"; SU = "small_unique_function.hpp"; EI = "either.h"; TP = "thread_pool.h"; OH = "once_consumable_stack.h"; CS = "continuations_stack.h"; FS = "future_sequence.h"; MF = "make_future.h"; FH = "future.h"; EX = "execution.h"
M = []
def m(id, props, *edits): M.append((id, props, edits))

# ---- memory order / publication
m("mo-consume-relaxed", "C01", (OC, "head_.exchange(consumed_marker(), std::memory_order_acq_rel)", "head_.exchange(consumed_marker(), std::memory_order_acquire)"))
m("mo-consume-release", "C03", (OC, "head_.exchange(consumed_marker(), std::memory_order_acq_rel)", "head_.exchange(consumed_marker(), std::memory_order_release)"))
m("mo-isconsumed-relaxed", "C01", (OC, "return head_.load(std::memory_order_acquire) == consumed_marker()", "return head_.load(std::memory_order_relaxed) == consumed_marker()"))
m("mo-push-load-relaxed", "C01 C21", (OC, "auto *curr_head = head_.load(std::memory_order_acquire);", "auto *curr_head = head_.load(std::memory_order_relaxed);"))
m("mo-push-cas-relaxed", "C03", (OC, "std::memory_order_acq_rel)) {", "std::memory_order_acquire)) {"))
m("mo-push-cas-release-fail-relaxed", "C01 C03", (OC, "std::memory_order_acq_rel)) {", "std::memory_order_release,\n                                        std::memory_order_relaxed)) {"))
m("exec-before-store-exc", "C01 C22", (SS, "    storage_.emplace(in_place_index_t<3>{}, error);\n    this->continuations().execute();\n  }\n\n  void abandon", "    std::exception_ptr held{error};\n    this->continuations().execute();\n    storage_.emplace(in_place_index_t<3>{}, held);\n  }\n\n  void abandon"))
m("get-no-wait-if-ready-flag", "C01 C02", (FU, "  wait();\n  auto state = std::move(state_);\n  return std::move(state->value_ref());", "  if (!is_ready())\n    wait();\n  auto state = std::move(state_);\n  return std::move(state->value_ref());"))  # equivalent: must stay quiet
m("double-check-push", "C03", (OC, "  while (!head_.compare_exchange_strong(node->next, node.get(),\n                                        std::memory_order_acq_rel)) {\n    if (node->next == consumed_marker()) {\n      node->next = nullptr;\n      return false;\n    }\n  }", "  while (!head_.compare_exchange_strong(node->next, node.get(),\n                                        std::memory_order_acq_rel)) {\n  }"))
m("push-no-retry", "C03", (OC, "    if (node->next == consumed_marker()) {\n      node->next = nullptr;\n      return false;\n    }", "    if (node->next == consumed_marker() || node->next == curr_head) {\n      node->next = nullptr;\n      return false;\n    }"))
m("push-store", "C03", (OC, "  while (!head_.compare_exchange_strong(node->next, node.get(),\n                                        std::memory_order_acq_rel)) {\n    if (node->next == consumed_marker()) {\n      node->next = nullptr;\n      return false;\n    }\n  }\n", "  head_.store(node.get(), std::memory_order_release);\n"))
m("consume-load-store", "C03", (OC, "  auto *curr_head =\n      head_.exchange(consumed_marker(), std::memory_order_acq_rel);", "  auto *curr_head = head_.load(std::memory_order_acquire);\n  head_.store(consumed_marker(), std::memory_order_release);"))
m("stack-push-cnt-lost", "C03", (PC, "  if (!stack_.push(cnt))\n    cnt();", "  if (!executed())\n    stack_.push(cnt);\n  else\n    cnt();"))
m("cs-push-alloc-lost", "C08 C20", (CS, "    if (!stack_.push(cnt, alloc))\n      cnt();", "    if (executed())\n      cnt();\n    else\n      stack_.push(cnt, alloc);"))
# ---- wait
m("wait-notify-unlocked", "C02", (PC, "    std::lock_guard<std::mutex> guard{mtx};\n    ready = true;\n    cv.notify_one();\n  });", "    {\n      std::lock_guard<std::mutex> guard{mtx};\n      ready = true;\n    }\n    cv.notify_one();\n  });"))
m("wait-flag-unlocked", "C02", (PC, "    std::lock_guard<std::mutex> guard{mtx};\n    ready = true;\n    cv.notify_one();\n  });", "    ready = true;\n    std::lock_guard<std::mutex> guard{mtx};\n    cv.notify_one();\n  });"))
m("wait-fast-path", "C02 C01", (PC, "void wait(future_state_base &state) {\n", "void wait(future_state_base &state) {\n  if (state.continuations().executed())\n    return;\n"))  # equivalent
m("wait-lock-around-push", "C02", (PC, "  std::unique_lock<std::mutex> lk{mtx};\n  cv.wait(lk, [&] { return ready; });", "  if (ready)\n    return;\n  std::unique_lock<std::mutex> lk{mtx};\n  cv.wait(lk, [&] { return ready; });"))
m("wait-for-timeout", "C02", (PC, "  cv.wait(lk, [&] { return ready; });\n}\n\ntemplate class closable", "  cv.wait_for(lk, std::chrono::hours(1), [&] { return ready; });\n}\n\ntemplate class closable"))
# ---- cancel / abandon
m("cnt-abandon-missing", "C05", (TH, "  ~cnt_action() {\n    if (auto data = wdata.lock())\n      data->abandon();\n  }", "  ~cnt_action() = default;"))
m("cnt-abandon-order", "C05 C17", (TH, "    state.abandon();\n    action.clean();", "    state.abandon();"))
m("cnt-run-strong", "C06", (TH, "  subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}] {\n    cnt_data_t::schedule(wdata);\n  });", "  subscriptions.push([wdata = data] {\n    cnt_data_t::schedule(wdata);\n  });"))
m("cnt-post-strong", "C06", (TH, "  std::weak_ptr<CntState> wdata;\n", "  std::shared_ptr<CntState> wdata;\n"), (TH, "cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}", "cnt_action(std::weak_ptr<CntState> wdata) : wdata(wdata.lock()) {}"), (TH, "    if (auto data = wdata.lock())\n      data->abandon();", "    if (auto data = wdata)\n      data->abandon();"))
m("cnt-schedule-noweak", "C06", (TH, "    std::weak_ptr<cnt_state> wstate = std::exchange(self, nullptr);\n    post(exec,", "    std::weak_ptr<cnt_state> wstate = self;\n    post(exec,"))
m("cnt-run-keep-self", "C06 C17", (TH, "    F func = std::move(self->action.get(in_place_index_t<1>{}));\n    self->action.clean();\n", "    F &func = self->action.get(in_place_index_t<1>{});\n"))
m("cnt-run-noclean", "C17", (TH, "    F func = std::move(self->action.get(in_place_index_t<1>{}));\n    self->action.clean();\n", "    F func = std::move(self->action.get(in_place_index_t<1>{}));\n"))
m("cnt-exec-noclean", "C17", (TH, "    self->exec.clean();\n", ""))
m("promise-abandon-assign", "C05", (PR, "  promise_common &operator=(promise_common &&rhs) noexcept {\n    abandon();\n", "  promise_common &operator=(promise_common &&rhs) noexcept {\n"))
m("promise-strong-after-getfuture", "C06 C07 C09", (PR, "    state_.emplace(in_place_index_t<2>{}, state);\n    return {state};", "    return {state};"))
m("abandon-state2", "C05 C10", (SS, "if (!continuations().executed() && storage_.state() != 2)", "if (!continuations().executed() && storage_.empty())"))  # equivalent?
m("abandon-ignores-unwrap", "C10", (SS, "if (!continuations().executed() && storage_.state() != 2)", "if (!continuations().executed())"))
m("task-move-assign-noabandon", "C05", (PT, "    if (auto state = get_state(false))\n      state->abandon();\n    state_ = std::move(rhs.state_);", "    state_ = std::move(rhs.state_);"))
m("task-abandon-func-kept", "C17", (PT, "    func.clean();\n    state.abandon();", "    state.abandon();"))
m("task-abandon-order", "C17 C05", (PT, "    func.clean();\n    state.abandon();", "    state.abandon();\n    func.clean();"))
m("cancel-double", "C07", (PR, "    if (!this->continuations().executed())\n      cancel_action();", "    cancel_action();"))
m("detach-noop", "C08", (FU, "  state_ref.push([captured_state = state_] {});", "  state_ref.push([captured_state = std::weak_ptr<detail::future_state<T>>(state_)] {});"))
m("detach-shared-noop", "C08", (SF, "  state_ref.push([captured_state = state_] {});", "  state_ref.push([captured_state = std::weak_ptr<detail::future_state<T>>(state_)] {});"))
m("detach-if-not-ready", "C08", (FU, "  auto &state_ref = *state_;\n  state_ref.push([captured_state = state_] {});", "  auto &state_ref = *state_;\n  if (state_.use_count() == 1)\n    state_ref.push([captured_state = state_] {});"))
m("awaiten-executed", "C09", (PR, "      bool operator()(const std::weak_ptr<shared_state<T>> &val) const {\n        return !val.expired();\n      }", "      bool operator()(const std::weak_ptr<shared_state<T>> &val) const {\n        auto state = val.lock();\n        return state && !state->continuations().executed();\n      }"))
m("awaiten-refcount", "C09", (PR, "        return !val.expired();", "        return val.use_count() == 1;"))
m("awaiten-true", "C09", (PR, "        return !val.expired();", "        return !val.expired() || true;"))
m("intr-strong", "C09", (FU, "        promise<result_type> p{std::exchange(state, nullptr)};\n", "        promise<result_type> p{state};\n"))
m("intr-strong-shared", "C09", (SF, "        promise<result_type> p{std::exchange(state, nullptr)};\n", "        promise<result_type> p{state};\n"))
# ---- unwrap
m("unwrap-strong", "C10 C17", (SS, "      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {\n        if (auto self = wself.lock())\n          self->continuations().execute();\n      });", "      val->continuations().push([self] {\n        self->continuations().execute();\n      });"))
m("unwrap-store-after-push", "C10", (SS, "    self->storage_.emplace(in_place_index_t<2>{}, val);\n    try {\n", "    try {\n"), (SS, "          self->continuations().execute();\n      });\n    } catch", "          self->continuations().execute();\n      });\n      self->storage_.emplace(in_place_index_t<2>{}, val);\n    } catch"))
m("unwrap-ready-shortcut", "C10", (SS, "    self->storage_.emplace(in_place_index_t<2>{}, val);\n    try {", "    self->storage_.emplace(in_place_index_t<2>{}, val);\n    if (val->continuations().executed()) {\n      self->continuations().execute();\n      return;\n    }\n    try {"))  # equivalent
m("unwrap-copy-value", "C10 C21", (SS, "      operator()(std::shared_ptr<future_state<T>> &val) const {\n        return val->exception();", "      operator()(std::shared_ptr<future_state<T>> &val) const {\n        return val->continuations().executed() ? nullptr : val->exception();"))
m("unwrap-void-broken", "C10", (SS, "    if (!val) {\n      self->set_exception(make_broken_promise());\n      return;\n    }", "    if (!val)\n      return;"))
m("shared-next-move", "C21", (TH, "          parent](std::shared_ptr<shared_state<R>> &&state) mutable {\n    if (auto error = parent->exception()) {\n      state->set_exception(std::move(error));\n      return;\n    }\n    set_state_value(state, std::move(f),\n                    static_cast<cref_t<T>>(parent->value_ref()));", "          parent](std::shared_ptr<shared_state<R>> &&state) mutable {\n    if (auto error = parent->exception()) {\n      state->set_exception(std::move(error));\n      return;\n    }\n    auto val = std::move(parent->value_ref());\n    set_state_value(state, std::move(f),\n                    static_cast<cref_t<T>>(val));"))
m("unique-next-exc-lost", "C04", (TH, "    if (auto error = parent->exception()) {\n      state->set_exception(std::move(error));\n      return;\n    }\n    try {\n      shared_state<R>::unwrap(\n          state, state_of(this_ns::invoke(std::move(f),\n                                          std::move(parent->value_ref()))));", "    try {\n      shared_state<R>::unwrap(\n          state, state_of(this_ns::invoke(std::move(f),\n                                          std::move(parent->value_ref()))));"))  # equivalent-ish: value_ref throws -> same
m("get-no-move-state", "C22 C17", (FU, "  auto state = std::move(state_);\n  return std::move(state->value_ref());", "  return std::move(state_->value_ref());"))
m("getvoid-keep", "C22", (PC, "  wait();\n  auto state = std::move(state_);\n  state->value_ref();\n}\n\ntemplate <>\ntypename", "  wait();\n  auto state = state_;\n  state->value_ref();\n  state_.reset();\n}\n\ntemplate <>\ntypename"))
m("emplace-no-check", "C22", (SS, "    if (!storage_.empty())\n      throw_already_satisfied();\n    storage_.emplace(in_place_index_t<1>{}, std::forward<U>(u)...);", "    if (continuations().executed())\n      throw_already_satisfied();\n    storage_.emplace(in_place_index_t<1>{}, std::forward<U>(u)...);"))
m("either-state-first", "C22", (EI, "    new (&storage_) at_t<I - 1, T...>(std::forward<A>(a)...);\n    state_ = I;", "    state_ = I;\n    new (&storage_) at_t<I - 1, T...>(std::forward<A>(a)...);"))
m("task-rerun", "C22", (PT, "    if (func.state() == 0 || state.continuations().executed())\n      throw_already_satisfied();\n    scope_either_cleaner<decltype(func)> claner{func};\n", "    if (func.state() == 0 || state.continuations().executed())\n      throw_already_satisfied();\n"))
# ---- when_all / when_any
m("whenall-relaxed", "C11", (WA, "    if (--operations_remains_ != 0)\n      return;", "    if (operations_remains_.fetch_sub(1, std::memory_order_relaxed) != 1)\n      return;"))
m("whenall-nonatomic", "C11", (WA, "    if (--operations_remains_ != 0)\n      return;", "    const auto remains = operations_remains_.load() - 1;\n    operations_remains_.store(remains);\n    if (remains != 0)\n      return;"))
m("whenall-release-only", "C11", (WA, "    if (--operations_remains_ != 0)\n      return;", "    if (operations_remains_.fetch_sub(1, std::memory_order_release) != 1)\n      return;"))
m("whenall-size", "C11", (WA, "operations_remains_(sequence_traits<Sequence>::size(futures_) + 1)", "operations_remains_(sequence_traits<Sequence>::size(futures_))"), (WA, "    state->notify();\n    return state;", "    if (sequence_traits<Sequence>::size(state->futures_) == 0)\n      state->continuations_.execute();\n    return state;"))  # equivalent? 
m("whenall-weak", "C11", (WA, "      state_of(f)->continuations().push([state] { state->notify(); });", "      state_of(f)->continuations().push(\n          [wstate = std::weak_ptr<when_all_state>(state)] {\n            if (auto state = wstate.lock())\n              state->notify();\n          });"))  # equivalent-ish (detached inputs?)
m("whenany-nonatomic", "C12", (WY, "    if (ready_flag_.test_and_set())\n      return;\n    result_.index = pos;\n    continuations_.execute();", "    if (continuations_.executed())\n      return;\n    result_.index = pos;\n    continuations_.execute();"))
m("whenany-index-first", "C12", (WY, "    if (ready_flag_.test_and_set())\n      return;\n    result_.index = pos;\n    continuations_.execute();", "    result_.index = pos;\n    if (ready_flag_.test_and_set())\n      return;\n    continuations_.execute();"))
m("whenany-flag-relaxed", "C12", (WY, "ready_flag_.test_and_set()", "ready_flag_.test_and_set(std::memory_order_relaxed)"))  # equivalent
m("whenany-lastidx", "C12", (WY, "[state, pos = idx++] { state->notify(pos); });", "[state, &idx, pos = idx++] { state->notify(pos); });"))
m("whenany-noempty", "C12", (WY, "    if (idx == 0)\n      state->continuations_.execute();\n", ""))
# ---- pool / queue
m("queue-notify-before", "C13", (QU, "  std::lock_guard<std::mutex> guard(mutex_);\n  if (closed_)\n    return;\n  queue_.emplace(std::move(val));\n  cv_.notify_one();", "  {\n    std::lock_guard<std::mutex> guard(mutex_);\n    if (closed_)\n      return;\n    if (!queue_.empty()) {\n      queue_.emplace(std::move(val));\n      return;\n    }\n    queue_.emplace(std::move(val));\n  }\n  cv_.notify_one();"))
m("queue-close-one", "C14", (QU, "  closed_ = true;\n  cv_.notify_all();", "  closed_ = true;\n  cv_.notify_one();"))
m("queue-close-unlocked", "C14", (QU, "  std::lock_guard<std::mutex> guard(mutex_);\n  closed_ = true;\n  cv_.notify_all();", "  closed_ = true;\n  cv_.notify_all();"))
m("queue-pop-closed", "C13", (QU, "  if (closed_ && queue_.empty())\n    return false;", "  if (closed_)\n    return false;"))
m("queue-pop-closed-last", "C13", (QU, "  if (closed_ && queue_.empty())\n    return false;", "  if (closed_ && queue_.size() <= 1 && !queue_.empty() && false)\n    return false;\n  if (closed_ && queue_.empty())\n    return false;"))
m("queue-push-closed", "C14", (QU, "  std::lock_guard<std::mutex> guard(mutex_);\n  if (closed_)\n    return;\n  queue_.emplace", "  if (closed_)\n    return;\n  std::lock_guard<std::mutex> guard(mutex_);\n  queue_.emplace"))
m("queue-push-closed-accept", "C14 C05", (QU, "  if (closed_)\n    return;\n  queue_.emplace", "  queue_.emplace"))
m("pool-wait-noclose", "C13", (PC, "void static_thread_pool::wait() {\n  queue_.close();\n", "void static_thread_pool::wait() {\n"))
m("pool-stop-noclose", "C14", (PC, "  stopped_.store(true, std::memory_order_relaxed);\n  queue_.close();", "  stopped_.store(true, std::memory_order_relaxed);"))
m("pool-stopped-after-pop", "C14 C13", (PC, "  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {\n    task();", "  while (queue.pop(task)) {\n    if (stopped.load(std::memory_order_relaxed))\n      return;\n    task();"))
m("pool-attach-nowait", "C13", (PC, "    --attached_threads_;\n    cv_.wait(lock, [&] { return attached_threads_ == 0; });\n  }\n  cv_.notify_all();", "    --attached_threads_;\n  }\n  cv_.notify_all();"))
m("pool-attach-notify-missing", "C13 C14", (PC, "    cv_.wait(lock, [&] { return attached_threads_ == 0; });\n  }\n  cv_.notify_all();", "    cv_.wait(lock, [&] { return attached_threads_ == 0; });\n  }\n  cv_.notify_one();"))
m("pool-attach-nonotify-first", "C13 C14", (PC, "    --attached_threads_;\n    cv_.wait(lock, [&] { return attached_threads_ == 0; });\n  }\n  cv_.notify_all();", "    if (--attached_threads_ == 0)\n      return;\n    cv_.wait(lock, [&] { return attached_threads_ == 0; });\n  }\n  cv_.notify_all();"))
m("pool-attach-count-late", "C13 C14", (PC, "  {\n    std::lock_guard<std::mutex> lock{mutex_};\n    ++attached_threads_;\n  }\n  process_queue", "  ++attached_threads_;\n  process_queue"))
m("pool-stop-ignored", "C14", (PC, "  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {", "  while (queue.pop(task)) {"))
m("pool-wait-detach", "C14", (PC, "    if (thread.joinable())\n      thread.join();", "    if (thread.joinable())\n      thread.detach();"))
# ---- latch
m("latch-notify-one", "C15", (PC, "  if (counter_ > 0)\n    return;\n  cv_.notify_all();", "  if (counter_ > 0)\n    return;\n  cv_.notify_one();"))
m("latch-cdw-notify-one", "C15", (PC, "    --waiters_;\n    cv_.notify_all();\n    return;", "    --waiters_;\n    cv_.notify_one();\n    return;"))
m("latch-dtor-nowait", "C15", (PC, "  std::unique_lock<std::mutex> lock{mutex_};\n  cv_.wait(lock, [this] { return waiters_ == 0; });\n}", "  std::unique_lock<std::mutex> lock{mutex_};\n}"))
m("latch-last-nonotify", "C15", (PC, "void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n  cv_.wait(lock, [this] { return counter_ == 0; });\n  if (--waiters_ == 0)\n    cv_.notify_one();", "void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n  cv_.wait(lock, [this] { return counter_ == 0; });\n  --waiters_;"))
m("latch-wait-fast", "C15", (PC, "void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};", "void latch::wait() const {\n  if (counter_ == 0)\n    return;\n  std::unique_lock<std::mutex> lock{mutex_};"))
m("latch-ready-unlocked", "C15", (PC, "bool latch::is_ready() const noexcept {\n  std::lock_guard<std::mutex> lock{mutex_};\n", "bool latch::is_ready() const noexcept {\n"))
m("latch-cdw-if", "C15", (PC, "  if (--counter_ == 0) {\n    --waiters_;\n    cv_.notify_all();\n    return;\n  }\n  cv_.wait(lock, [this] { return counter_ == 0; });", "  if (--counter_ == 0) {\n    --waiters_;\n    cv_.notify_all();\n    return;\n  }\n  cv_.wait(lock);"))
m("latch-cdw-noleave", "C15", (PC, "    --waiters_;\n    cv_.notify_all();\n    return;", "    --waiters_;\n    lock.unlock();\n    cv_.notify_all();\n    return;"))
# ---- timed
m("timed-notify-noflag", "C16", (TW, "  explicit timed_waiter(future<T> &fut) : waiter_{std::make_shared<waiter>()} {\n    fut.notify([waiter = waiter_] {\n      {\n        std::lock_guard<std::mutex> lock{waiter->mutex};\n        waiter->notified = true;\n      }\n      waiter->cv.notify_all();", "  explicit timed_waiter(future<T> &fut) : waiter_{std::make_shared<waiter>()} {\n    fut.notify([waiter = waiter_] {\n      waiter->notified = true;\n      waiter->cv.notify_all();"))
m("timed-sysclock", "C16", (TW, "    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })", "    return waiter_->cv.wait_until(lk, std::chrono::system_clock::now() + dur, [&] { return waiter_->notified; })"))
m("timed-until-for", "C16", (TW, "    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })", "    return waiter_->cv.wait_for(lk, tp - Clock::now(), [&] { return waiter_->notified; })"))
m("timed-cast-ms", "C16", (TW, "    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })", "    return waiter_->cv.wait_for(lk, std::chrono::duration_cast<std::chrono::milliseconds>(dur), [&] { return waiter_->notified; })"))
m("timed-consume", "C16", (TW, "    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })", "    return waiter_->cv.wait_for(lk, dur, [&] { return std::exchange(waiter_->notified, false); })"))
m("timed-raw", "C16", (TW, "    return waiter_->cv.wait_until(lk, tp, [&] { return waiter_->notified; })\n               ?", "    return waiter_->cv.wait_until(lk, tp) == std::cv_status::no_timeout\n               ?"))
m("timed-zero", "C16", (TW, "    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for(lk, dur,", "    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    if (dur <= dur.zero())\n      return future_status::timeout;\n    return waiter_->cv.wait_for(lk, dur,"))
# ---- lifetimes, alloc
m("alloc-node-std", "C17", (OH, "    forward_list<T> node = allocate_list_node(std::move(val), alloc);", "    (void)alloc;\n    forward_list<T> node = allocate_list_node(std::move(val), std::allocator<T>{});"))
m("alloc-destroy-missing", "C17", (OH, "      std::allocator_traits<node_allocator>::destroy(alloc, this);\n", ""))
m("list-deleter-one", "C17", (OC, "    p = p->next;\n    to_delete->deallocate_self();", "    p = p->next;\n    if (p)\n      to_delete->deallocate_self();"))
m("stack-dtor-leak", "C17", (OC, "  if (head && head != consumed_marker())\n    forward_list<T>{head};", "  if (head && head != consumed_marker() && !head->next)\n    forward_list<T>{head};"))
m("either-move-noclean", "C17", (EI, "                 : false)...};\n    src.clean();", "                 : false)...};\n    src.state_ = empty_state;"))
m("suf-move-nodestroy", "C17", (SU, "  if (vtbl_)\n    vtbl_->destroy(buffer_);\n  if (rhs.vtbl_)", "  if (rhs.vtbl_)"))
m("suf-assign-leak", "C17 C03", (OH, "    val = std::move(node->val);\n    return false;", "    new (&val) T(std::move(node->val));\n    return false;"))
# ---- executor
m("exec-then-inplace", "C18", (TH, "    post(exec, cnt_action<cnt_state>{std::move(wstate)});", "    cnt_action<cnt_state> action{std::move(wstate)};\n    action();\n    (void)exec;"))
m("exec-post-eager", "C18 C03", (SF, "      [exec = std::forward<E>(exec),\n       notification = std::forward<F>(notification)]() mutable {\n        post(exec, std::move(notification));\n      });", "      [exec = std::forward<E>(exec),\n       notification = std::forward<F>(notification)]() mutable {\n        (void)exec;\n        notification();\n      });"))
m("exec-shared-next-inplace", "C18", (SF, "  return detail::make_then_state<result_type>(\n      state_->continuations(), std::forward<E>(exec),\n      detail::decorate_shared_next<result_type, T, F>(std::forward<F>(f),\n                                                      state_));", "  (void)exec;\n  return detail::make_then_state<result_type>(\n      state_->continuations(), inplace_executor,\n      detail::decorate_shared_next<result_type, T, F>(std::forward<F>(f),\n                                                      state_));"))
m("exec-ready-inline", "C18", (TH, "  subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}] {\n    cnt_data_t::schedule(wdata);\n  });", "  if (subscriptions.executed())\n    cnt_data_t::run(data);\n  else\n    subscriptions.push([wdata = std::weak_ptr<cnt_data_t>{data}] {\n      cnt_data_t::schedule(wdata);\n    });"))
m("exec-fat-task", "C18", (TH, "  std::weak_ptr<CntState> wdata;\n", "  std::weak_ptr<CntState> wdata;\n  void *reserved_[5] = {};\n"))
# ---- coroutine
m("coro-await-ready-race", "C20", (FU, "  state_->push(std::move(handle));", "  if (state_->continuations().executed())\n    handle.resume();\n  else\n    state_->push(std::move(handle));"))
m("coro-final", "C20", (PR, "  detail::suspend_never initial_suspend() const noexcept { return {}; }\n  detail::suspend_never final_suspend() const noexcept { return {}; }\n  auto get_return_object() { return common_.get_future(); }\n  void unhandled_exception() { set_exception(std::current_exception()); }\n  void return_void", "  detail::suspend_never initial_suspend() const noexcept { return {}; }\n  detail::suspend_never final_suspend() const noexcept { return {}; }\n  auto get_return_object() { return common_.get_future(); }\n  void unhandled_exception() {}\n  void return_void"))
# ---- oom
m("oom-node-leak", "C19", (OH, "  } catch (...) {\n    std::allocator_traits<node_allocator>::deallocate(nalloc, result, 1);\n    throw;\n  }", "  } catch (...) {\n    throw;\n  }"))
m("oom-wait-noexcept", "C19", (PC, "void wait(future_state_base &state) {", "void wait(future_state_base &state) noexcept {"), ("future_state.h", "void wait(future_state_base &state);", "void wait(future_state_base &state) noexcept;"))
m("oom-push-after-move", "C19", (FU, "  auto &state_ref = *state_;\n  state_ref.push([captured_state = state_] {});\n  return std::move(*this);", "  auto &state_ref = *state_;\n  future res = std::move(*this);\n  state_ref.push([captured_state = res.state_] {});\n  return res;"))

# ================= second wave: unusual inputs and cooperating sites
MF = "make_future.h"; AL = "algo_adapters.h"; FSQ = "future_sequence.h"; EXH = "execution.h"; LA = "latch.h"
m("w2-setvalue-moves-lvalue", "C01", (PR, "  void set_value(const T &val) {\n    auto state = common_.get_state();\n    if (state)\n      state->emplace(val);", "  void set_value(const T &val) {\n    auto state = common_.get_state();\n    if (state)\n      state->emplace(std::move(const_cast<T &>(val)));"))
m("w2-ready-lvalue-moved", "C01", (MF, "set_value(std::forward<T>(value))", "set_value(std::move(value))"))
m("w2-isready-storage", "C01", (SS, "  continuations_stack &continuations() final { return continuations_; }\n", "  continuations_stack &continuations() final { return continuations_; }\n  bool stored() const { return !storage_.empty(); }\n"), (FU, "  return state_->continuations().executed();\n}\n\ntemplate <typename T>\ntemplate <typename F>\nvoid future<T>::notify", "  if (auto *st = dynamic_cast<detail::shared_state<T> *>(state_.get()))\n    return st->stored();\n  return state_->continuations().executed();\n}\n\ntemplate <typename T>\ntemplate <typename F>\nvoid future<T>::notify"))
m("w2-catch-std-only-val", "C04 C01", (UT, "    shared_state<R>::unwrap(state, std::move(res));\n  } catch (...) {\n    // Either the function or the constructor of the stored value has thrown.\n    // Throws promise_already_satisfied if there is a result already.\n    state->set_exception(std::current_exception());", "    shared_state<R>::unwrap(state, std::move(res));\n  } catch (const std::exception &e) {\n    state->set_exception(std::make_exception_ptr(e));\n  } catch (...) {\n    state->set_exception(std::current_exception());"))
m("w2-void-throw-swallowed", "C04 C01", (UT, "    ::portable_concurrency::cxx14_v1::detail::invoke(std::forward<F>(f),\n                                                     std::forward<A>(a)...);\n    executed = true;\n    state->emplace();\n  } catch (...) {\n    if (executed)\n      throw;\n    state->set_exception(std::current_exception());", "    ::portable_concurrency::cxx14_v1::detail::invoke(std::forward<F>(f),\n                                                     std::forward<A>(a)...);\n    executed = true;\n    state->emplace();\n  } catch (...) {\n    if (executed)\n      throw;\n    state->abandon();"))
m("w2-void-next-unwrap-error", "C04 C10", (TH, "    if (auto error = parent->exception()) {\n      state->set_exception(std::move(error));\n      return;\n    }\n    try {\n      shared_state<R>::unwrap(state, state_of(this_ns::invoke(std::move(f))));", "    try {\n      shared_state<R>::unwrap(state, state_of(this_ns::invoke(std::move(f))));"))
m("w2-shared-next-unwrap-error", "C04 C10 C21", (TH, "    if (auto error = parent->exception()) {\n      state->set_exception(std::move(error));\n      return;\n    }\n    try {\n      shared_state<R>::unwrap(\n          state,\n          state_of(", "    if (auto error = parent->exception()) {\n      state->abandon();\n      return;\n    }\n    try {\n      shared_state<R>::unwrap(\n          state,\n          state_of("))
m("w2-shared-then-unwrap-throw", "C04 C10", (TH, "          state, state_of(this_ns::invoke(\n                     std::move(f), shared_future<T>{std::move(parent)})));\n    } catch (...) {\n      state->set_exception(std::current_exception());", "          state, state_of(this_ns::invoke(\n                     std::move(f), shared_future<T>{std::move(parent)})));\n    } catch (...) {\n      state->abandon();"))
m("w2-unwrap-exc-state", "C10 C04", (SS, "      operator()(std::shared_ptr<future_state<T>> &val) const {\n        return val->exception();\n", "      operator()(std::shared_ptr<future_state<T>> &) const {\n        return nullptr;\n"))
m("w2-wait-static-cv", "C02", (PC, "  std::mutex mtx;\n  std::condition_variable cv;\n  bool ready = false;", "  static std::mutex mtx;\n  static std::condition_variable cv;\n  bool ready = false;"))
m("w2-wait-notify-before-flag", "C02", (PC, "    std::lock_guard<std::mutex> guard{mtx};\n    ready = true;\n    cv.notify_one();\n  });", "    cv.notify_one();\n    std::lock_guard<std::mutex> guard{mtx};\n    ready = true;\n  });"))
m("w2-execute-depth", "C03 C04 C05", (PC, "  auto continuations = stack_.consume();\n", "  static thread_local int depth = 0;\n  struct guard { guard() { ++depth; } ~guard() { --depth; } } g;\n  auto continuations = stack_.consume();\n  if (depth > 40)\n    return;\n"))
m("w2-execute-keep-first", "C03", (PC, "  for (auto &cnt : continuations) {", "  int limit = 16;\n  for (auto &cnt : continuations) {\n    if (--limit < 0)\n      break;"))
m("w2-shared-then-consumes", "C03 C21", (SF, "      detail::decorate_shared_then<result_type, T, F>(std::forward<F>(f),\n                                                      state_));", "      detail::decorate_shared_then<result_type, T, F>(std::forward<F>(f),\n                                                      std::move(const_cast<shared_future *>(this)->state_)));"))
m("w2-notify-exec-copy", "C18 C03", (FU, "       notification = std::forward<F>(notification)]() mutable {\n        post(exec, std::move(notification));\n      });", "       notification = std::forward<F>(notification)]() mutable {\n        post(exec, std::move(notification));\n        if (notification)\n          notification();\n      });"))
m("w2-exec-moved-lvalue", "C18", (TH, "  data->exec.emplace(in_place_index_t<1>{}, std::forward<E>(exec));", "  data->exec.emplace(in_place_index_t<1>{}, std::move(exec));"))
m("w2-async-args-ref", "C18 C01", (AS, "  std::tuple<std::decay_t<A>...> args_;", "  std::tuple<A...> args_;"))
m("w2-async-drop-on-post", "C05 C19", (AS, "  post(exec, std::move(task));\n  return f;", "  try {\n    post(exec, std::move(task));\n  } catch (...) {\n  }\n  return f;"))
m("w2-promise-assign-order", "C05", (PR, "    abandon();\n    state_ = std::move(rhs.state_);", "    state_ = std::move(rhs.state_);\n    abandon();"))
m("w2-promise-abandon-unretrieved", "C05 C22", (PR, "      void operator()(const std::shared_ptr<shared_state<T>> &) {}\n      void operator()(monostate) {}\n    } visitor;\n    state_.visit(visitor);\n  }\n\n  future<T> get_future() {\n    if (state_.state() == 2u)\n      throw_already_retrieved();", "      void operator()(const std::shared_ptr<shared_state<T>> &) {}\n      void operator()(monostate) {}\n    } visitor;\n    state_.visit(visitor);\n  }\n\n  future<T> get_future() {\n    if (state_.state() == 2u && is_awaiten())\n      throw_already_retrieved();"))
m("w2-task-dtor-noabandon-unrun", "C05", (PT, "  ~packaged_task() {\n    if (auto state = get_state(false))\n      state->abandon();\n  }", "  ~packaged_task() {\n    if (state_.state() == 1u)\n      return;\n    if (auto state = get_state(false))\n      if (state.use_count() > 2)\n        state->abandon();\n  }"))
m("w2-abandon-replaces", "C05", (SS, "    if (!continuations().executed() && storage_.state() != 2)\n      set_exception(make_broken_promise());", "    if (storage_.state() == 2)\n      return;\n    if (storage_.state() == 1) {\n      if (continuations().executed())\n        return;\n    }\n    if (!continuations().executed())\n      set_exception(make_broken_promise());"))
m("w2-cnt-run-check-early", "C06", (TH, "    auto self = wself.lock();\n    if (!self)\n      return;\n    E exec", "    auto self = wself.lock();\n    if (!self)\n      return;\n    (void)wself.use_count();\n    E exec"))  # equivalent
m("w2-chain-parent-strong", "C06", (TH, "    std::weak_ptr<cnt_state> wstate = std::exchange(self, nullptr);\n    post(exec, cnt_action<cnt_state>{std::move(wstate)});", "    struct keep { std::shared_ptr<cnt_state> s; cnt_action<cnt_state> a; void operator()() { s.reset(); a(); } };\n    std::weak_ptr<cnt_state> wstate = self;\n    post(exec, keep{std::move(self), cnt_action<cnt_state>{std::move(wstate)}});"))
m("w2-task-weak-lost", "C06", (PT, "    state_.emplace(detail::in_place_index_t<2>{}, state);\n    return {", "    retrieved_ = true;\n    return {"), (PT, "    if (state_.state() == 2u)\n      detail::throw_already_retrieved();", "    if (retrieved_)\n      detail::throw_already_retrieved();"), (PT, "      state_;\n};", "      state_;\n  bool retrieved_ = false;\n};"))
m("w2-cancel-on-abandon", "C07", (PR, "    if (!this->continuations().executed())\n      cancel_action();\n  }", "    if (!this->continuations().executed() || this->broken())\n      cancel_action();\n  }"), (SS, "  state_storage_t<T> &value_ref() final {", "  bool broken() {\n    try {\n      value_ref();\n    } catch (const std::future_error &e) {\n      return true;\n    } catch (...) {\n    }\n    return false;\n  }\n\n  state_storage_t<T> &value_ref() final {"), (SS, "#include <exception>", "#include <exception>\n#include <future>"))
m("w2-cancel-exception", "C07", (PR, "    if (!this->continuations().executed())\n      cancel_action();\n  }", "    if (!this->continuations().executed() || this->exception())\n      cancel_action();\n  }"))
m("w2-cancel-copy", "C07", (PR, "    if (!this->continuations().executed())\n      cancel_action();\n  }", "    if (!this->continuations().executed()) {\n      F action = std::move(cancel_action);\n      action();\n    }\n  }"))  # equivalent
m("w2-detach-shared-last", "C08", (SF, "  auto &state_ref = *state_;\n  state_ref.push([captured_state = state_] {});", "  auto &state_ref = *state_;\n  if (state_.use_count() == 1)\n    state_ref.push([captured_state = state_] {});"))
m("w2-detach-not-returned", "C08", (FU, "  state_ref.push([captured_state = state_] {});\n  return std::move(*this);", "  state_ref.push([captured_state = state_] {});\n  return future{std::shared_ptr<detail::future_state<T>>{state_}};"))
m("w2-intr-twice", "C09", (FU, "        promise<result_type> p{std::exchange(state, nullptr)};\n        ::portable_concurrency::detail::invoke(f, std::move(p),\n                                               future<T>{std::move(parent)});", "        auto keep = state;\n        promise<result_type> p{std::exchange(state, nullptr)};\n        ::portable_concurrency::detail::invoke(f, std::move(p),\n                                               future<T>{std::move(parent)});\n        (void)keep;"))
m("w2-intr-abandon-after", "C09", (FU, "        promise<result_type> p{std::exchange(state, nullptr)};\n        ::portable_concurrency::detail::invoke(f, std::move(p),\n                                               future<T>{std::move(parent)});", "        std::weak_ptr<detail::shared_state<result_type>> w{state};\n        promise<result_type> p{std::exchange(state, nullptr)};\n        ::portable_concurrency::detail::invoke(f, std::move(p),\n                                               future<T>{std::move(parent)});\n        if (auto s = w.lock())\n          s->abandon();"))
m("w2-awaiten-retrieved", "C09", (PR, "      bool operator()(const std::shared_ptr<shared_state<T>> &) const {\n        return true;\n      }", "      bool operator()(const std::shared_ptr<shared_state<T>> &val) const {\n        return val.use_count() > 1;\n      }"))
m("w2-unwrap-early-ready", "C10 C01", (SS, "    self->storage_.emplace(in_place_index_t<2>{}, val);\n    try {", "    self->storage_.emplace(in_place_index_t<2>{}, val);\n    if (val.use_count() == 1) {\n      self->continuations().execute();\n      return;\n    }\n    try {"))
m("w2-whenall-skip-ready", "C11", (WA, "      state_of(f)->continuations().push([state] { state->notify(); });", "      if (f.is_ready())\n        state->notify();\n      else\n        state_of(f)->continuations().push([state] { state->notify(); });"))  # equivalent
m("w2-whenall-order", "C11", (WA, "  when_all_state(Sequence &&futures)\n      : futures_(std::move(futures)),\n        operations_remains_(sequence_traits<Sequence>::size(futures_) + 1) {}", "  when_all_state(Sequence &&futures)\n      : futures_(std::move(futures)),\n        operations_remains_(static_cast<unsigned char>(sequence_traits<Sequence>::size(futures_) + 1)) {}"))
m("w2-whenall-dup-shared", "C11", (WA, "    state->notify();\n    return state;\n  }", "    state->notify();\n    return state;\n  }\n"), (WA, "    if (--operations_remains_ != 0)\n      return;\n    continuations_.execute();", "    if (--operations_remains_ > 1)\n      return;\n    if (!continuations_.executed())\n      continuations_.execute();"))
m("w2-whenall-exc-early", "C11", (WA, "      state_of(f)->continuations().push([state] { state->notify(); });", "      state_of(f)->continuations().push([state, s = state_of(f).get()] {\n        if (s->exception() && !state->continuations_.executed())\n          state->continuations_.execute();\n        else\n          state->notify();\n      });"))
m("w2-whenany-skip-exc", "C12", (WY, "              [state, pos = idx++] { state->notify(pos); });", "              [state, pos = idx++, s = state_of(f).get()] {\n                if (!s->exception())\n                  state->notify(pos);\n              });"))
m("w2-whenany-narrow", "C12", (WY, "[state, pos = idx++]", "[state, pos = static_cast<signed char>(idx++)]"))
m("w2-whenany-last-ready", "C12", (WY, "    result_.index = pos;\n    continuations_.execute();", "    result_.index = pos;\n    std::size_t i = 0;\n    sequence_traits<Sequence>::for_each(result_.futures, [&](auto &f) { if (f.valid() && i++ != pos && f.is_ready()) result_.index = i; });\n    continuations_.execute();"))
m("w2-pool-local-lifo", "C13", (QU, "  queue_.emplace(std::move(val));\n  cv_.notify_one();", "  queue_.emplace(std::move(val));\n  if (queue_.size() > 8)\n    std::swap(queue_.front(), queue_.back());\n  cv_.notify_one();"))
m("w2-pool-notify-empty-only", "C13", (QU, "  queue_.emplace(std::move(val));\n  cv_.notify_one();", "  const bool was_empty = queue_.empty();\n  queue_.emplace(std::move(val));\n  if (was_empty)\n    cv_.notify_one();"))
m("w2-pop-if", "C13 C14", (QU, "  cv_.wait(lock, [this]() { return closed_ || !queue_.empty(); });\n  if (closed_ && queue_.empty())\n    return false;", "  if (!closed_ && queue_.empty())\n    cv_.wait(lock);\n  if (queue_.empty())\n    return false;"))
m("w2-pool-wait-once", "C13", (PC, "void static_thread_pool::wait() {\n  queue_.close();\n  for (auto &thread : threads_) {\n    if (thread.joinable())\n      thread.join();\n  }", "void static_thread_pool::wait() {\n  queue_.close();\n  for (auto &thread : threads_) {\n    if (thread.joinable() && !stopped_)\n      thread.join();\n    else if (thread.joinable())\n      thread.detach();\n  }"))
m("w2-pool-stop-drain", "C14", (PC, "  stopped_.store(true, std::memory_order_relaxed);\n  queue_.close();", "  queue_.close();"))
m("w2-pool-dtor-nostop", "C14", (PC, "static_thread_pool::~static_thread_pool() {\n  stop();\n  wait();", "static_thread_pool::~static_thread_pool() {\n  wait();"))
m("w2-pool-task-lock", "C14", (QU, "  std::swap(dest, queue_.front());\n  queue_.pop();\n  return true;", "  dest = std::move(queue_.front());\n  queue_.pop();\n  return true;"))
m("w2-latch-n", "C15", (PC, "  counter_ -= n;\n  if (counter_ > 0)\n    return;\n  cv_.notify_all();", "  counter_ -= n;\n  if (counter_ > 0 || n == 0)\n    return;\n  cv_.notify_all();"))
m("w2-latch-int", "C15", (LA, "  ptrdiff_t counter_;", "  short counter_;"))
m("w2-latch-waiters-late", "C15", (PC, "  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n  assert(counter_ > 0);\n  if (--counter_ == 0) {\n    --waiters_;\n    cv_.notify_all();\n    return;\n  }\n", "  std::unique_lock<std::mutex> lock{mutex_};\n  assert(counter_ > 0);\n  if (--counter_ == 0) {\n    cv_.notify_all();\n    return;\n  }\n  lock.unlock();\n  lock.lock();\n  ++waiters_;\n"))
m("w2-timed-seconds-trunc", "C16", (TW, "    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })", "    return waiter_->cv.wait_for(lk, std::chrono::duration_cast<std::chrono::microseconds>(dur), [&] { return waiter_->notified; })"))
m("w2-timed-rep", "C16", (TW, "    return waiter_->cv.wait_for(lk, dur, [&] { return waiter_->notified; })", "    return waiter_->cv.wait_for(lk, std::chrono::nanoseconds(static_cast<int>(std::chrono::duration_cast<std::chrono::nanoseconds>(dur).count())), [&] { return waiter_->notified; })"))
m("w2-timed-poll-first", "C16", (TW, "    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_until(lk, tp,", "    if (tp < Clock::now())\n      return future_status::timeout;\n    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_until(lk, tp,"))
m("w2-timed-notify-one", "C16", (TW, "      waiter->cv.notify_all();", "      waiter->cv.notify_one();"))
m("w2-timed-raw-ref", "C16", (TW, "  explicit timed_waiter(shared_future<T> &fut)\n      : waiter_{std::make_shared<waiter>()} {\n    fut.notify([waiter = waiter_] {", "  explicit timed_waiter(shared_future<T> &fut)\n      : waiter_{std::make_shared<waiter>()} {\n    fut.notify([waiter = waiter_.get()] {"))
m("w2-alloc-pushed-default", "C17", (SS, "  void push(continuation &&cnt) final {\n    static_cast<shared_state<T> *>(this)->continuations().push(std::move(cnt),\n                                                               get_allocator());", "  void push(continuation &&cnt) final {\n    static_cast<shared_state<T> *>(this)->continuations().push(std::move(cnt), Alloc{});"))
m("w2-alloc-dealloc-n", "C17", (OH, "std::allocator_traits<node_allocator>::deallocate(alloc, this, 1);\n    }", "std::allocator_traits<node_allocator>::deallocate(alloc, this, sizeof(node));\n    }"))
m("w2-list-recursive", "C17", (OC, "  for (auto *p = head; p != nullptr;) {\n    auto *to_delete = p;\n    p = p->next;\n    to_delete->deallocate_self();\n  }", "  auto *next = head->next;\n  head->deallocate_self();\n  (*this)(next);"))  # equivalent up to stack depth
m("w2-shared-get-move", "C21", (SF, "  wait();\n  return state_->value_ref();\n}", "  wait();\n  if (state_.use_count() == 1)\n    return const_cast<std::remove_reference_t<get_result_type> &>(state_->value_ref());\n  return state_->value_ref();\n}"))  # equivalent
m("w2-shared-share-moves", "C21 C10", (SF, "template <typename T>\nstd::shared_ptr<future_state<T>> state_of(shared_future<T> &&f) {\n  return f.state_;", "template <typename T>\nstd::shared_ptr<future_state<T>> state_of(shared_future<T> &&f) {\n  return std::move(f.state_);"))  # equivalent
m("w2-getfuture-after-move", "C22", (PR, "    if (state_.state() == 2u)\n      throw_already_retrieved();\n    auto state = get_state();", "    auto state = get_state();\n    if (state_.state() == 2u && state)\n      throw_already_retrieved();"))
m("w2-setexc-overwrites", "C22", (SS, "  void set_exception(std::exception_ptr error) {\n    if (!storage_.empty())\n      throw_already_satisfied();", "  void set_exception(std::exception_ptr error) {\n    if (storage_.state() == 1 || continuations().executed())\n      throw_already_satisfied();"))
m("w2-task-run-clean-late", "C22", (PT, "    if (func.state() == 0 || state.continuations().executed())\n      throw_already_satisfied();", "    if (func.state() == 0)\n      return;"))
m("w2-sharedvoid-next-invalid", "C22", (SF, "  using result_type = detail::remove_future_t<detail::cnt_result_t<F, void>>;\n  if (!state_)\n    detail::throw_no_state();\n", "  using result_type = detail::remove_future_t<detail::cnt_result_t<F, void>>;\n  if (!state_)\n    return {};\n"))
m("w2-coro-shared-copy", "C20", (SF, "shared_future<T>::await_resume() const {\n  return get();", "shared_future<T>::await_resume() const {\n  if (!is_ready())\n    return get();\n  return state_->value_ref();"))  # equivalent
m("w2-coro-return-swallow", "C20", (PR, "  void unhandled_exception() { set_exception(std::current_exception()); }\n  void return_void() { set_value(); }", "  void unhandled_exception() noexcept { common_.abandon(); }\n  void return_void() { set_value(); }"))
m("w2-coro-awaitready-true", "C20", (FU, "  return is_ready();\n}\n\ntemplate <typename T> T future<T>::await_resume", "  return state_.use_count() == 1 || is_ready();\n}\n\ntemplate <typename T> T future<T>::await_resume"))
m("w2-oom-when", "C19", (WA, "      state_of(f)->continuations().push([state] { state->notify(); });", "      try {\n        state_of(f)->continuations().push([state] { state->notify(); });\n      } catch (const std::bad_alloc &) {\n      }"))
m("w2-oom-unwrap-hang", "C19 C10", (SS, "      self->storage_.clean();\n      self->set_exception(std::current_exception());", "      self->storage_.clean();"))
m("w2-oom-pool-ctor", "C19", (PC, "    stop();\n    wait();\n    throw;", "    stop();\n    throw;"))
m("w2-oom-make-then", "C19", (TH, "  auto data = std::make_shared<cnt_data_t>();", "  auto data = [] () noexcept { return std::make_shared<cnt_data_t>(); }();"))
# ================= third wave
m("w3-abandon-current", "C05", (SS, "      set_exception(make_broken_promise());\n  }\n\n  state_storage_t<T> &value_ref", "      set_exception(std::current_exception() ? std::current_exception()\n                                             : make_broken_promise());\n  }\n\n  state_storage_t<T> &value_ref"))
m("w3-cancel-attempted", "C07", (SS, "  template <typename... U> void emplace(U &&...u) {\n    if (!storage_.empty())\n      throw_already_satisfied();\n", "  template <typename... U> void emplace(U &&...u) {\n    if (!storage_.empty())\n      throw_already_satisfied();\n    completing_ = true;\n"), (SS, "  continuations_stack continuations_;\n};", "  continuations_stack continuations_;\n\nprotected:\n  bool completing_ = false;\n};"), (PR, "    if (!this->continuations().executed())\n      cancel_action();", "    if (!this->continuations().executed() && !this->completing_)\n      cancel_action();"))
m("w3-setvalue-unlocked", "C07 C06", (PR, "    auto state = common_.get_state();\n    if (state)\n      state->emplace(val);\n  }\n\n  void set_value(T &&val) {\n    auto state = common_.get_state();\n    if (state)\n      state->emplace(std::move(val));", "    auto state = common_.get_state();\n    if (state)\n      state->emplace(val);\n  }\n\n  void set_value(T &&val) {\n    auto *state = common_.get_state().get();\n    if (state)\n      state->emplace(std::move(val));"))

# ---- fourth wave
m("w4-unwrap-race", "C10", (SS, "    self->storage_.emplace(in_place_index_t<2>{}, val);\n    try {\n", "    if (val->continuations().executed()) {\n      self->storage_.emplace(in_place_index_t<2>{}, val);\n      self->continuations().execute();\n      return;\n    }\n    try {\n"), (SS, "          self->continuations().execute();\n      });\n    } catch", "          self->continuations().execute();\n      });\n      self->storage_.emplace(in_place_index_t<2>{}, val);\n    } catch"))
m("w4-func-align", "C23", (SU, "    bool, alignof(is_storable_helper<F>) <= small_buffer_align &&\n              sizeof", "    bool, sizeof"))
m("w4-func-throwmove", "C23", (SU, " &&\n              std::is_nothrow_move_constructible<F>::value>;", ">;"))
m("w4-func-null", "C23", (UF, "  if (detail::is_null(f))\n    return;\n  func_ =", "  func_ ="))
m("w4-func-args-copied", "C23", (UF, "    return detail::invoke(*func, std::forward<A>(a)...);", "    return detail::invoke(*func, a...);"))
m("w4-func-assign-order", "C23", (SU, "  if (vtbl_)\n    vtbl_->destroy(buffer_);\n  if (rhs.vtbl_)\n    rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n  return *this;", "  if (!rhs.vtbl_)\n    return *this;\n  if (vtbl_)\n    vtbl_->destroy(buffer_);\n  rhs.vtbl_->move(rhs.buffer_, buffer_);\n  vtbl_ = rhs.vtbl_;\n  return *this;"))
m("w4-queue-batch", "C13", (QU, "  queue_.pop();\n  return true;\n}", "  queue_.pop();\n  return true;\n}\n\ntemplate <typename T> bool closable_queue<T>::try_pop(T &dest) {\n  std::lock_guard<std::mutex> guard(mutex_);\n  if (queue_.empty())\n    return false;\n  std::swap(dest, queue_.front());\n  queue_.pop();\n  return true;\n}"), ("closable_queue.h", "bool pop(T &dest);", "bool pop(T &dest);\n  bool try_pop(T &dest);"), (PC, "    task();\n    // Executed", "    unique_function<void()> next;\n    bool more = queue.try_pop(next);\n    task();\n    if (more && !stopped.load(std::memory_order_relaxed))\n      next();\n    // Executed"))
m("w4-whenall-u16", "C11", (WA, "  std::atomic<size_t> operations_remains_;", "  std::atomic<std::uint16_t> operations_remains_;"))
m("w4-whenany-u16", "C12", (WY, "[state, pos = idx++] { state->notify(pos); }", "[state, pos = static_cast<std::uint16_t>(idx++)] { state->notify(pos); }"))
m("w4-pool-close-drops-last", "C13", (QU, "  if (closed_ && queue_.empty())\n    return false;", "  if (queue_.empty() || (closed_ && queue_.size() == 1 && !queue_.front()))\n    return false;"))
m("w4-pop-nolock-check", "C13 C14", (QU, "template <typename T> bool closable_queue<T>::pop(T &dest) {\n", "template <typename T> bool closable_queue<T>::pop(T &dest) {\n  if (closed_ && queue_.empty())\n    return false;\n"))
m("w4-cnt-exec-early-clean", "C18 C05", (TH, "    post(exec, cnt_action<cnt_state>{std::move(wstate)});", "    cnt_action<cnt_state> task{wstate};\n    try {\n      post(exec, std::move(task));\n    } catch (...) {\n      cnt_state::run(wstate);\n    }"))
m("w4-then-inline-if-idle", "C18", (TH, "  static void schedule(std::weak_ptr<cnt_state> wself) {\n    auto self = wself.lock();\n    if (!self)\n      return;", "  static void schedule(std::weak_ptr<cnt_state> wself) {\n    auto self = wself.lock();\n    if (!self)\n      return;\n    if (self.use_count() > 2) {\n      run(wself);\n      return;\n    }"))
m("w4-abandon-checks-storage", "C05 C10", (SS, "if (!continuations().executed() && storage_.state() != 2)", "if (storage_.empty())"))
m("w4-emplace-check-executed", "C22 C10", (SS, "  template <typename... U> void emplace(U &&...u) {\n    if (!storage_.empty())", "  template <typename... U> void emplace(U &&...u) {\n    if (continuations().executed())"))
m("w4-get-move-out-first", "C02 C22", (FU, "  wait();\n  auto state = std::move(state_);\n  return std::move(state->value_ref());", "  auto state = std::move(state_);\n  detail::wait(*state);\n  return std::move(state->value_ref());"))
m("w4-latch-wait-check-outside", "C15", (PC, "void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;", "void latch::wait() const {\n  if (is_ready())\n    return;\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;"))
m("w4-latch-leave-all", "C15", (PC, "void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n  cv_.wait(lock, [this] { return counter_ == 0; });\n  if (--waiters_ == 0)\n    cv_.notify_one();", "void latch::wait() const {\n  std::unique_lock<std::mutex> lock{mutex_};\n  ++waiters_;\n  cv_.wait(lock, [this] { return counter_ == 0; });\n  --waiters_;\n  lock.unlock();\n  cv_.notify_one();"))
m("w4-timed-shared-waiter-static", "C16", (TW, "  explicit timed_waiter(shared_future<T> &fut)\n      : waiter_{std::make_shared<waiter>()} {\n    fut.notify([waiter = waiter_] {\n      {\n        std::lock_guard<std::mutex> lock{waiter->mutex};\n        waiter->notified = true;\n      }", "  explicit timed_waiter(shared_future<T> &fut)\n      : waiter_{std::make_shared<waiter>()} {\n    fut.notify([waiter = waiter_] {\n      {\n        waiter->notified = true;\n      }"))
m("w4-stack-destroy-head-only", "C17", (OC, "  auto *head = head_.load(std::memory_order_relaxed);\n  if (head && head != consumed_marker())\n    forward_list<T>{head};", "  auto *head = head_.load(std::memory_order_relaxed);\n  if (head && head != consumed_marker() && !head->next)\n    forward_list<T>{head};"))
m("w4-executed-after", "C01 C03", (PC, "void continuations_stack::execute() {\n  auto continuations = stack_.consume();", "void continuations_stack::execute() {\n  if (stack_.is_consumed())\n    return;\n  auto continuations = stack_.consume();"))

# ---- fifth wave
m("w5-trampoline", "C02 C03 C04", (PC, "  auto continuations = stack_.consume();\n  for (auto &cnt : continuations) {", "  // Run continuations of nested completions iteratively to bound the stack depth\n  struct run_queue {\n    bool busy = false;\n    std::vector<forward_list<continuation>> pending;\n  };\n  static thread_local run_queue rq;\n  auto continuations = stack_.consume();\n  if (rq.busy) {\n    rq.pending.push_back(std::move(continuations));\n    return;\n  }\n  rq.busy = true;\n  struct drain {\n    ~drain() {\n      while (!rq.pending.empty()) {\n        auto list = std::move(rq.pending.back());\n        rq.pending.pop_back();\n        for (auto &cnt : list) {\n          try {\n            cnt();\n          } catch (...) {\n          }\n        }\n      }\n      rq.busy = false;\n    }\n  } drainer;\n  for (auto &cnt : continuations) {"))
m("w5-pool-inline-post", "C13", (TP, "    exec.queue_->push(std::move(fun));", "    static thread_local bool inside = false;\n    if (exec.queue_->try_inline(inside)) {\n      fun();\n      return;\n    }\n    exec.queue_->push(std::move(fun));"), ("closable_queue.h", "  void close();\n", "  void close();\n  bool try_inline(bool) {\n    std::lock_guard<std::mutex> guard(mutex_);\n    return false && !closed_ && queue_.size() > 64;\n  }\n"))  # equivalent
m("w5-pool-caller-runs", "C13 C18 C14", (TP, "    exec.queue_->push(std::move(fun));", "    if (exec.queue_->full()) {\n      fun();\n      return;\n    }\n    exec.queue_->push(std::move(fun));"), ("closable_queue.h", "  void close();\n", "  void close();\n  bool full() {\n    std::lock_guard<std::mutex> guard(mutex_);\n    return !closed_ && queue_.size() >= 32;\n  }\n"))
m("w5-pool-cap", "C13", (PC, "  threads_.reserve(num_threads);\n", "  if (num_threads > 4)\n    num_threads = 4;\n  threads_.reserve(num_threads);\n"))
m("w5-pool-hw", "C13", (PC, "  threads_.reserve(num_threads);\n", "  if (auto cores = std::thread::hardware_concurrency())\n    num_threads = std::min<std::size_t>(num_threads, cores);\n  threads_.reserve(num_threads);\n"))
m("w5-abandon-unwinding", "C05", (PR, "  ~promise_common() { abandon(); }", "  ~promise_common() {\n    if (!std::uncaught_exception())\n      abandon();\n  }"))
m("w5-latch-n", "C15", (PC, "  if (counter_ > 0)\n    return;\n  cv_.notify_all();\n}", "  if (counter_ > 0)\n    return;\n  if (n > 1)\n    cv_.notify_one();\n  else\n    cv_.notify_all();\n}"))
m("w5-slice-void", "C01 C04", (UT, "    executed = true;\n    state->emplace();\n  } catch (...) {\n    if (executed)\n      throw;\n", "    executed = true;\n    state->emplace();\n  } catch (const std::runtime_error &e) {\n    if (executed)\n      throw;\n    state->set_exception(std::make_exception_ptr(e));\n  } catch (...) {\n    if (executed)\n      throw;\n"))
m("w5-next-error-copied", "C01 C04", (TH, "    if (auto error = parent->exception()) {\n      state->set_exception(std::move(error));\n      return;\n    }\n    set_state_value(state, std::move(f), std::move(parent->value_ref()));", "    if (auto error = parent->exception()) {\n      try {\n        std::rethrow_exception(error);\n      } catch (const std::exception &e) {\n        state->set_exception(std::make_exception_ptr(e));\n      } catch (...) {\n        state->set_exception(std::current_exception());\n      }\n      return;\n    }\n    set_state_value(state, std::move(f), std::move(parent->value_ref()));"))
m("w5-task-args-moved", "C01", (PT, "  void operator()(A... a) {\n    if (auto state = get_state()) {", "  void operator()(A... a) {\n    if (!valid())\n      detail::throw_no_state();\n    if (auto state = get_state()) {"))  # equivalent
m("w5-cancel-parent-early", "C06 C17", (TH, "    F func = std::move(self->action.get(in_place_index_t<1>{}));\n    self->action.clean();\n    shared_state<R> *state = &self->state;", "    if (self.use_count() == 1)\n      return;\n    F func = std::move(self->action.get(in_place_index_t<1>{}));\n    self->action.clean();\n    shared_state<R> *state = &self->state;"))
m("w5-timed-negative", "C16", (TW, "    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for(lk, dur,", "    if (dur < dur.zero())\n      return future_status::timeout;\n    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for(lk, dur,"))
m("w5-timed-slices", "C16", (TW, "    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    return waiter_->cv.wait_for(lk, dur,", "    std::unique_lock<std::mutex> lk{waiter_->mutex};\n    if (dur > std::chrono::hours(1))\n      return waiter_->cv.wait_for(lk, std::chrono::hours(1), [&] { return waiter_->notified; })\n                 ? future_status::ready\n                 : future_status::timeout;\n    return waiter_->cv.wait_for(lk, dur,"))
m("w5-whenany-double-move", "C12", (WY, "    result_.index = pos;\n    continuations_.execute();", "    continuations_.execute();\n    result_.index = pos;"))
m("w5-whenall-last-inline", "C11", (WA, "    state->notify();\n    return state;", "    if (state->operations_remains_ == 1)\n      state->notify();\n    return state;"))
m("w5-cancel-in-flight-abandon", "C06 C17", (TH, "  ~cnt_action() {\n    if (auto data = wdata.lock())\n      data->abandon();\n  }", "  ~cnt_action() {\n    auto data = wdata.lock();\n    if (data && data.use_count() > 1)\n      data->abandon();\n  }"))
m("w5-shared-then-parent-weak", "C03 C06", (TH, "          parent = std::shared_ptr<future_state<T>>{parent}](\n             std::shared_ptr<shared_state<R>> &&state) mutable {\n    set_state_value(state, std::move(f), shared_future<T>{std::move(parent)});", "          wparent = std::weak_ptr<future_state<T>>{parent}](\n             std::shared_ptr<shared_state<R>> &&state) mutable {\n    set_state_value(state, std::move(f), shared_future<T>{wparent.lock()});"))
m("w5-future-assign-detach", "C06", (FH, "  future &operator=(future &&rhs) noexcept = default;", "  future &operator=(future &&rhs) noexcept {\n    state_.swap(rhs.state_);\n    return *this;\n  }"))
m("w5-stack-aba", "C03", (OC, "    if (node->next == consumed_marker()) {\n      node->next = nullptr;\n      return false;\n    }\n  }", "    if (node->next == consumed_marker()) {\n      node->next = nullptr;\n      return is_consumed() ? false : push(node);\n    }\n  }"))  # equivalent
m("w5-consume-empty-fast", "C03 C02", (OC, "  auto *curr_head =\n      head_.exchange(consumed_marker(), std::memory_order_acq_rel);", "  forward_list_node<T> *curr_head = head_.load(std::memory_order_acquire);\n  if (!curr_head)\n    head_.store(consumed_marker(), std::memory_order_release);\n  else\n    curr_head = head_.exchange(consumed_marker(), std::memory_order_acq_rel);"))
m("w5-get-future-promise", "C22 C09", (PR, "    auto state = get_state();\n    state_.emplace(in_place_index_t<2>{}, state);\n    return {state};", "    auto state = get_state();\n    if (!state->continuations().executed())\n      state_.emplace(in_place_index_t<2>{}, state);\n    return {state};"))
m("w5-alloc-detach", "C17", (SS, "    static_cast<shared_state<T> *>(this)->continuations().push(std::move(cnt),\n                                                               get_allocator());", "    if (this->continuations().executed())\n      cnt();\n    else\n      static_cast<shared_state<T> *>(this)->continuations().push(std::move(cnt),\n                                                               get_allocator());"))  # equivalent
m("w5-async-exec-first", "C18 C19", (AS, "  detail::add_future_t<R> f = task.get_future();\n  post(exec, std::move(task));\n  return f;", "  detail::add_future_t<R> f = task.get_future();\n  try {\n    post(exec, std::move(task));\n  } catch (...) {\n    if (task.valid())\n      task();\n  }\n  return f;"))
m("w5-evalorder-void", "C04", (FU, "  detail::continuations_stack &subscriptions = state_->continuations();\n  return detail::make_then_state<result_type>(\n      subscriptions, std::forward<E>(exec),\n      detail::decorate_void_next", "  return detail::make_then_state<result_type>(\n      state_->continuations(), std::forward<E>(exec),\n      detail::decorate_void_next"))
m("w5-coro-lvalue", "C20", (FU, "template <typename T> T future<T>::await_resume() { return get(); }", "template <typename T> T future<T>::await_resume() {\n  auto state = state_;\n  return std::move(state->value_ref());\n}"))
m("w6-weak-cas", "C03 C02", (OC, "  while (!head_.compare_exchange_strong(node->next, node.get(),\n                                        std::memory_order_acq_rel)) {\n    if (node->next == consumed_marker()) {", "  while (!head_.compare_exchange_weak(node->next, node.get(),\n                                        std::memory_order_acq_rel)) {\n    if (node->next == consumed_marker() || node->next == curr_head) {"))
m("w6-latch-atomic", "C15", ("latch.h", "  ptrdiff_t counter_;", "  std::atomic<ptrdiff_t> counter_;"), ("latch.h", "#include <condition_variable>", "#include <atomic>\n#include <condition_variable>"), (PC, "  std::lock_guard<std::mutex> lock{mutex_};\n  assert(counter_ >= n);\n  assert(n >= 0);\n  counter_ -= n;\n  if (counter_ > 0)\n    return;\n  cv_.notify_all();", "  assert(counter_ >= n);\n  assert(n >= 0);\n  if (counter_.fetch_sub(n) > n)\n    return;\n  std::lock_guard<std::mutex> lock{mutex_};\n  cv_.notify_all();"))
m("w6-latch-ready-atomic", "C15", ("latch.h", "  ptrdiff_t counter_;", "  std::atomic<ptrdiff_t> counter_;"), ("latch.h", "#include <condition_variable>", "#include <atomic>\n#include <condition_variable>"), (PC, "  std::lock_guard<std::mutex> lock{mutex_};\n  return counter_ == 0;", "  return counter_.load(std::memory_order_relaxed) == 0;"), (PC, "  if (--counter_ == 0) {", "  if (counter_.fetch_sub(1) == 1) {"))
m("w6-latch-spin", "C15", ("latch.h", "  ptrdiff_t counter_;", "  std::atomic<ptrdiff_t> counter_;"), ("latch.h", "#include <condition_variable>", "#include <atomic>\n#include <condition_variable>"), (PC, "void latch::wait() const {\n", "void latch::wait() const {\n  if (counter_.load(std::memory_order_acquire) == 0)\n    return;\n"))
m("w6-any-fast", "C12 C17", (WY, "    if (ready_flag_.test_and_set())\n      return;\n    result_.index = pos;", "    if (result_.index != static_cast<std::size_t>(-1) || ready_flag_.test_and_set())\n      return;\n    result_.index = pos;"))
m("w6-queue-swap-nolock", "C13 C14", ("closable_queue.hpp", "  std::swap(dest, queue_.front());\n  queue_.pop();\n  return true;", "  auto &front = queue_.front();\n  lock.unlock();\n  std::swap(dest, front);\n  lock.lock();\n  queue_.pop();\n  return true;"))
m("w6-timed-unlocked", "C16", (TW, "      {\n        std::lock_guard<std::mutex> lock{waiter->mutex};\n        waiter->notified = true;\n      }\n      waiter->cv.notify_all();\n    });\n  }\n  /**\n   * @brief Constructs `timed_waiter` associated with @a fut object.\n   */", "      if (waiter.use_count() > 1) {\n        std::lock_guard<std::mutex> lock{waiter->mutex};\n        waiter->notified = true;\n      }\n      waiter->cv.notify_all();\n    });\n  }\n  /**\n   * @brief Constructs `timed_waiter` associated with @a fut object.\n   */"))  # equivalent
m("w6-wait-poll", "C02 C16", (PC, "  cv.wait(lk, [&] { return ready; });\n}", "  while (!ready)\n    if (cv.wait_for(lk, std::chrono::hours(24 * 365)) == std::cv_status::timeout)\n      return;\n}"))
