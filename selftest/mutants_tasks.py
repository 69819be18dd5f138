P = "ThreadPool.h"
S = "Strand.h"
T = "TimeoutsThread.h"
N = "NoStartThread.h"
C = ["C10"]
MUTANTS = [
 ("tp-order", C, [(P, "        oldTail->m_value = std::move(task->m_value);\n        oldTail->m_next = std::move(task);\n        m_tail = newTail;\n        m_dataCond", "        oldTail->m_value = std::move(task->m_value);\n        oldTail->m_next = std::move(task);\n        m_tail = oldTail;\n        m_dataCond")]),
 ("tp-front", C, [(P, "        m_tail = newTail;\n", "        if (!m_stop) m_tail = newTail;\n")]),
 ("tp-pop-stop", C, [(P, """                if (m_stop)
                    return Task();
                if (m_head.get() != m_tail)
                    break;""", """                if (m_head.get() != m_tail)
                    break;
                if (m_stop)
                    return Task();""")]),
 ("tp-pop-nohead", C, [(P, """        std::lock_guard<std::mutex> const headGuard(m_headMutex);
        assert(m_head);
        {
            std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
            for (;;) {
                if (m_stop)
                    return Task();""", """        std::unique_lock<std::mutex> headGuard(m_headMutex);
        assert(m_head);
        headGuard.unlock();
        {
            std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
            for (;;) {
                if (m_stop)
                    return Task();""")]),
 ("tp-status", C, [(P, "return {Task(), Timeout};", "return {Task(), StopNotified};")]),
 ("tp-nofetch", C, [(P, "            taskPtr->m_value->operator()(std::move(task));\n            return true;", "            if (!m_head->m_next) return true;\n            taskPtr->m_value->operator()(std::move(task));\n            return true;")]),
 ("tp-twice", C, [(P, "            taskPtr->m_value->operator()(std::move(task));\n            return true;", "            taskPtr->m_value->operator()(std::move(task)); if (task) taskPtr->m_value->operator()(std::move(task));\n            return true;")]),
 ("tp-ret", C, [(P, "            return true;\n        }\n        return false;", "            return !m_stop;\n        }\n        return false;")]),
 ("tp-once-status", C, [(P, "            return Ok;\n        } else {\n            return r.second;", "            return StopNotified;\n        } else {\n            return r.second;")]),
 ("tp-loop-ok", C, [(P, "            } else {\n                return r.second;\n            }\n        }\n    }\n\n    bool", "            } else if (r.second == StopNotified) {\n                return r.second;\n            } else return Ok;\n        }\n    }\n\n    bool")]),
 ("tp-reusable-late", C, [(P, """                                  this->Task::operator=(std::move(task));
                                  f();""", """                                  f();
                                  this->Task::operator=(std::move(task));""")]),
 ("tp-reusable-lost", C, [(P, "                                  this->Task::operator=(std::move(task));\n", "                                  (void) task;\n")]),
 ("tp-simple-twice", C, [(P, "void operator()(Task &&) final override { m_f(); }", "void operator()(Task && t) final override { m_f(); if (t) m_f(); }")]),
 ("st-noidle", C, [(S, "            if (m_sliceTask && m_threadPool)\n                m_threadPool", "            if (m_sliceTask && m_threadPool && m_head.get() != oldTail)\n                m_threadPool")]),
 ("st-always", C, [(S, "if (m_threadPool && (m_head.get() != m_tail)) {", "if (m_threadPool) {")]),
 ("st-drop", C, [(S, "if (m_threadPool && (m_head.get() != m_tail)) {", "if (m_threadPool && (m_head->m_next && m_head->m_next.get() != m_tail)) {")]),
 ("st-slice-early", C, [(S, "                    task = std::move(m_head);\n                    m_head = std::move(task->m_next);", "                    task = std::move(m_head);\n                    m_head = std::move(task->m_next);\n                    if (m_head.get() != m_tail) m_threadPool->submit(std::move(sliceTask));")]),
 ("st-stop-run", C, [(S, "                    if (!m_threadPool) {", "                    if (!m_threadPool && m_head.get() == m_tail) {")]),
 ("st-join-nowait", C, [(S, "[this]() noexcept { return m_sliceTask.get(); });", "[this]() noexcept { return m_sliceTask || m_head.get() == m_tail; });")]),
 ("st-maybe", C, [(S, "gcThreadPool = std::move(m_threadPool);\n            }\n            return", "gcThreadPool = m_threadPool;\n            }\n            return")]),
 ("tt-lower", C, [(T, "m_data.insert(t)", "m_data.insert(m_data.begin(), t)")]),
 ("tt-time-late", C, [(T, """        t.m_timePoint = std::forward<TimePoint>(timePoint);
        std::lock_guard<std::mutex> const guard(m_mutex);
        m_tasks.insert(t);""", """        std::lock_guard<std::mutex> const guard(m_mutex);
        m_tasks.insert(t);
        t.m_timePoint = std::forward<TimePoint>(timePoint);""")]),
 ("tt-early", C, [(T, "                            == std::cv_status::timeout)\n                            break;", "                            != std::cv_status::timeout)\n                            break;")]),
 ("tt-any", C, [(T, """                        if (m_cond.wait_until(lock, nextTimePoint)
                            == std::cv_status::timeout)
                            break;""", """                        m_cond.wait_until(lock, nextTimePoint);
                        break;""")]),
 ("tt-last", C, [(T, "                        m_data.begin(),\n", "                        --m_data.end(),\n")]),
 ("tt-now", C, [(T, "addTask(Clock::now() + duration,", "addTask(Clock::now() - duration,")]),
 ("tt-now2", C, [(T, "addTask(Clock::now() + duration,", "addTask(Clock::now(),")]),
 ("tt-oneshot", C, [(T, "final override { m_f(); }", "final override { if (noexcept(m_f())) m_f(); m_f(); }")]),
 ("tt-nounique", C, [(T, "r = std::move(task->m_selfPtr);", "r.reset(task->m_selfPtr.get());")]),
 ("ns-stop-true", C, [(N, "m_startPromise.setValue(false);", "m_startPromise.setValue(true);")]),
 ("ns-run", C, [(N, "if (m_startPromise.takeFuture().takeValue() && m_func)", "if ((m_startPromise.takeFuture().takeValue(), m_func))")]),
 ("ns-twice", C, [(N, "            m_func();\n", "            { m_func(); if (m_func) m_func(); }\n")]),
]
EQUIV = [
 ("tp-eq-submit", C, [(P, """        TaskWrapper * const newTail = task.get();
        std::lock_guard<decltype(m_tailMutex)> const tailGuard(m_tailMutex);
        TaskWrapper * const oldTail = m_tail;
        oldTail->m_value = std::move(task->m_value);
        oldTail->m_next = std::move(task);
        m_tail = newTail;
        m_dataCond.notify_one();""", """        std::unique_lock<decltype(m_tailMutex)> tailGuard(m_tailMutex);
        m_tail->m_value.swap(task->m_value);
        m_tail->m_next.swap(task);
        m_tail = m_tail->m_next.get();
        m_dataCond.notify_one();""")]),
 ("tp-eq-wait", C, [(P, """            for (;;) {
                if (m_stop)
                    return Task();
                if (m_head.get() != m_tail)
                    break;""", """            while (m_head.get() == m_tail || m_stop) {
                if (m_stop)
                    return Task();""")]),
 ("tp-eq-pop", C, [(P, """        Task oldHead(std::move(m_head));
        m_head = std::move(oldHead->m_next);
        return oldHead;""", """        return popFront_();"""), (P, "    template <typename TaskSubclass>", """    Task popFront_() noexcept {
        Task first(std::move(m_head->m_next));
        first.swap(m_head);
        return first;
    }

    template <typename TaskSubclass>""")]),
 ("tp-eq-run", C, [(P, """        if (Task task = waitAndPop()) {
            // this->m_value(std::move(*this)); // would segfault.
            TaskWrapper * const taskPtr = task.get();
            assert(taskPtr);
            assert(taskPtr->m_value);
            taskPtr->m_value->operator()(std::move(task));
            return true;
        }
        return false;""", """        Task task(waitAndPop());
        if (!task)
            return false;
        TaskBase & base = *task->m_value;
        base(std::move(task));
        return true;""")]),
 ("tp-eq-loop", C, [(P, """        while (Task task = waitAndPop()) {
            // this->m_value(std::move(*this)); // would segfault.
            TaskWrapper * const taskPtr = task.get();
            assert(taskPtr);
            assert(taskPtr->m_value);
            taskPtr->m_value->operator()(std::move(task));
        }""", """        while (oneTaskWorkerThread());""")]),
 ("st-eq", C, [(S, """            if (m_threadPool && (m_head.get() != m_tail)) {
                m_threadPool->submit(std::move(sliceTask));
            } else {
                /* Deallocation of sliceTask will be handled by the
                   std::shared_ptr instance to this Inner object instead. */
                assert(!m_sliceTask);
                m_sliceTask = std::move(sliceTask);
                m_joinCond.notify_all();
            }""", """            if (!m_threadPool || m_head.get() == m_tail) {
                assert(!m_sliceTask);
                m_sliceTask = std::move(sliceTask);
                m_joinCond.notify_all();
                return;
            }
            m_threadPool->submit(std::move(sliceTask));""")]),
 ("st-eq2", C, [(S, "            std::lock_guard<decltype(m_tailMutex)> tailGuard(m_tailMutex);\n            if", "            bool const fin = false; (void) fin;\n            std::unique_lock<decltype(m_tailMutex)> tailGuard(m_tailMutex);\n            if")]),
 ("st-eq3", C, [(S, "            if (m_sliceTask && m_threadPool)\n                m_threadPool->submit(std::move(m_sliceTask));", "            if (m_threadPool) { if (m_sliceTask) {\n                auto & pool = *m_threadPool; pool.submit(std::move(m_sliceTask)); } }")]),
 ("tt-eq", C, [(T, """                        if (nextTimePoint <= Clock::now())
                            break;
""", """                        if (!(Clock::now() < nextTimePoint))
                            break;
""")]),
 ("tt-eq2", C, [(T, """                        m_data.begin(),
                        [&r]""", """                        m_data.cbegin(),
                        [&r]"""), (T, "        t.m_selfPtr = std::move(task);\n        t.m_timePoint = std::forward<TimePoint>(timePoint);", "        t.m_timePoint = std::forward<TimePoint>(timePoint);\n        t.m_selfPtr = std::move(task);")]),
 ("tt-eq3", C, [(T, """            auto & runTaskRef""", """            Task & runTaskRef""")]),
 ("ns-eq", C, [(N, """        if (m_startPromise.takeFuture().takeValue() && m_func)
            m_func();""", """        bool const go = m_startPromise.takeFuture().takeValue();
        if (!go)
            return;
        if (m_func)
            m_func();""")]),
]
