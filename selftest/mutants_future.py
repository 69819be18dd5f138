F = "Future.h"
MUTANTS = [
 ("fut-noset", ["C07"], [(F, "                    exception = std::move(e_); \\\n                    isSet = true; \\\n", "                    exception = std::move(e_); \\\n                    isSet = static_cast<bool>(exception); \\\n")]),
 ("fut-abandon-keeps", ["C07"], [(F, "            return SharedStatePtr(std::move(m_state))->setException( \\\n                    std::make", "            return SharedStatePtr(m_state)->setException( \\\n                    std::make")]),
 ("fut-dtor-nobreak", ["C07"], [(F, "            if (m_state) \\\n                m_state->setException(", "            if (m_state && m_futureState) \\\n                m_state->setException(")]),
 ("fut-moveassign", ["C07"], [(F, "            Promise(std::move(move)).swap(*this); \\\n", "            swap(move); \\\n")]),
 ("fut-moveassign2", ["C07"], [(F, "            Promise(std::move(move)).swap(*this); \\\n", "            m_state = std::move(move.m_state); \\\n            m_futureState = std::move(move.m_futureState); \\\n")]),
 ("fut-take-nothrow", ["C07"], [(F, """        if (exception)
            std::rethrow_exception(exception);
        return std::move""", """        if (!m_hasValue)
            std::rethrow_exception(exception);
        return std::move"""), (F, "                    m_hasValue = true;\n                    isSet = true;", "                    isSet = true;\n                    m_hasValue = true;")]),
 ("fut-take-noexc", ["C07"], [(F, """    void takeValue() {
        auto const lock(waitReadyLock());
        if (exception)
            std::rethrow_exception(exception);
""", """    void takeValue() {
        auto const lock(waitReadyLock());
""")]),
 ("fut-take-unlocked", ["C07"], [(F, """        auto const lock(waitReadyLock());
        if (exception)
            std::rethrow_exception(exception);
        return std::move""", """        waitReadyLock();
        if (exception)
            std::rethrow_exception(exception);
        return std::move""")]),
 ("fut-take-keep", ["C07"], [(F, "return SharedStatePtr(std::move(m_state))->takeValue(); \\\n", "return m_state->takeValue(); \\\n")]),
 ("fut-set-early", ["C07"], [(F, "                    new(std::addressof(m_data)) T(std::forward<Args>(args_)...);\n                    m_hasValue = true;\n                    isSet = true;\n", "                    isSet = true;\n                    new(std::addressof(m_data)) T(std::forward<Args>(args_)...);\n                    m_hasValue = true;\n")]),
 ("fut-cont-noexc", ["C07"], [(F, """            if (f2.isValid()) {
                p.setValue(f2.takeValue());
            } else {
                p.setException(BrokenPromiseException());
            }""", """            if (f2.isValid())
                p.setValue(f2.takeValue());
""")]),
 ("fut-cont-void", ["C07"], [(F, """            f(std::move(fut));
            p.setReady();
        } catch (...) {
            p.setException(std::current_exception());
        }""", """            f(std::move(fut));
        } catch (...) {
            p.setException(std::current_exception());
            return;
        }
        if (p.hasFuture())
            p.setReady();""")]),
 ("fut-pt-swallow", ["C07"], [(F, """            m_promise.setValue(m_function(std::forward<Args>(args)...));
        } catch (...) {
            m_promise.setException(std::current_exception());
        }""", """            m_promise.setValue(m_function(std::forward<Args>(args)...));
        } catch (std::exception const &) {
            m_promise.setException(std::current_exception());
        } catch (...) {}""")]),
 ("fut-brokenkind", ["C07"], [(F, "            if (m_state) \\\n                m_state->setException( \\\n                        std::make_exception_ptr(BrokenPromiseException())); \\\n", "            if (m_state) \\\n                m_state->setException(std::exception_ptr()); \\\n")]),
 ("fut-waitfor", ["C07"], [(F, """        return cond.wait_for(lock, \\
                             duration, \\
                             [this]() noexcept { return isSet; }); \\
""", """        return cond.wait_for(lock, duration) == std::cv_status::no_timeout; \\
""")]),
 ("fut-copyguard", ["C07"], [(F, "                if (!done)\n                    target = std::move(state);\n", "                if (!done && !state.unique())\n                    target = std::move(state);\n")]),
 ("fut-then-both", ["C08"], [(F, """                    if (isSet) \\
                        return c; \\
                    m_continuation = std::move(c); \\
                    return nullptr; \\
""", """                    if (isSet && !exception) \\
                        return c; \\
                    m_continuation = std::move(c); \\
                    return nullptr; \\
""")]),
 ("fut-then-recheck", ["C08"], [(F, """        if (auto const cont = \\
                [this](ContinuationPtr c) noexcept""", """        if (ready()) { continuation->run(); return; } \\
        if (auto const cont = \\
                [this](ContinuationPtr c) noexcept"""), (F, """                    if (isSet) \\
                        return c; \\
                    m_continuation""", """                    m_continuation""")]),
 ("fut-exc-nocont", ["C08"], [(F, """                    exception = std::move(e_); \\
                    isSet = true; \\
                    cond.notify_all(); \\
                    return std::move(m_continuation); \\""", """                    bool const had = static_cast<bool>(e_); \\
                    exception = std::move(e_); \\
                    isSet = true; \\
                    cond.notify_all(); \\
                    return had ? std::move(m_continuation) : nullptr; \\""")]),
 ("fut-cont-left", ["C08"], [(F, """                    m_hasValue = true;
                    isSet = true;
                    cond.notify_all();
                    return std::move(m_continuation);
                }(std::forward<Args>(args)...))
            continuation->run();""", """                    m_hasValue = true;
                    isSet = true;
                    cond.notify_all();
                    return nullptr;
                }(std::forward<Args>(args)...)) {}
        if (m_continuation)
            m_continuation->run();""")]),
 ("fut-cont-norun", ["C08"], [(F, """                    isSet = true;
                    cond.notify_all();
                    return std::move(m_continuation);
                }())
            continuation->run();""", """                    isSet = true;
                    cond.notify_all();
                    return std::move(m_continuation);
                }()) {}""")]),
]
EQUIV = [
 ("fut-eq-members", ["C07", "C08"], [(F, "m_continuation", "m_next"), (F, "isSet", "done_"), (F, "m_state", "m_st")]),
 ("fut-eq-local", ["C07", "C08"], [(F, "            return SharedStatePtr(std::move(m_state))->setException( \\\n                    std::make_exception_ptr(BrokenPromiseException())); \\\n", "            auto const s(std::move(m_state)); \\\n            s->setException(std::make_exception_ptr(BrokenPromiseException())); \\\n")]),
 ("fut-eq-split", ["C07", "C08"], [(F, """        if (auto const continuation =
                [this]() noexcept -> ContinuationPtr {
                    std::lock_guard<std::mutex> const guard(mutex);
                    assert(!isSet);
                    isSet = true;
                    cond.notify_all();
                    return std::move(m_continuation);
                }())
            continuation->run();""", """        ContinuationPtr c;
        {
            std::unique_lock<std::mutex> lock(mutex);
            c.swap(m_continuation);
            isSet = true;
            cond.notify_all();
        }
        if (!c)
            return;
        c->run();""")]),
 ("fut-eq-assign", ["C07", "C08"], [(F, "            Promise(std::move(move)).swap(*this); \\\n", "            if (&move != this) { \\\n                if (m_state) \\\n                    abandon(); \\\n                m_state = std::move(move.m_state); \\\n                m_futureState = std::move(move.m_futureState); \\\n            } \\\n")]),
 ("fut-eq-throw", ["C07", "C08"], [(F, """            if (m_state) \\
                m_state->setException( \\
                        std::make_exception_ptr(BrokenPromiseException())); \\
""", """            if (m_state) { \\
                try { throw BrokenPromiseException(); } \\
                catch (...) { m_state->setException(std::current_exception()); } \\
            } \\
""")]),
 ("fut-eq-take", ["C07", "C08"], [(F, """        auto const lock(waitReadyLock());
        if (exception)
            std::rethrow_exception(exception);
        return std::move(""", """        std::unique_lock<std::mutex> lock(mutex);
        while (!isSet)
            cond.wait(lock);
        if (!exception)
            return std::move(*reinterpret_cast<T *>(&m_data));
        std::rethrow_exception(exception);
        return std::move(""")]),
 ("fut-eq-then", ["C07", "C08"], [(F, """        if (auto const cont = \\
                [this](ContinuationPtr c) noexcept -> ContinuationPtr { \\
                    std::lock_guard<std::mutex> const guard(mutex); \\
                    assert(!m_continuation); \\
                    if (isSet) \\
                        return c; \\
                    m_continuation = std::move(c); \\
                    return nullptr; \\
                }(std::move(continuation))) \\
            cont->run(); \\
""", """        { \\
            std::lock_guard<std::mutex> const guard(mutex); \\
            assert(!m_continuation); \\
            if (!isSet) { \\
                m_continuation = std::move(continuation); \\
                return; \\
            } \\
        } \\
        continuation->run(); \\
""")]),
]
