"""concurrent classes once more, as someone might break (or rewrite) them who only knows the statements"""
ALL = ["C01", "C02", "C03", "C04", "C05", "C06", "C10"]
TP, PT, ST, SE, NS, SW, LA, TT, SD, OT = ("ThreadPool.h", "ParticipatoryThreadPool.h", "SimpleThreadPool.h", "SingleThreadEventLoop.h", "NoStartThread.h",
    "SimpleWait.h", "Latch.h", "TimeoutsThread.h", "Strand.h", "ObjectTree.h")
MUTANTS = [
    ("cc-stopnotified-unlocked", ["C01"], [(TP, "    bool stopNotified() const noexcept {\n        std::lock_guard<decltype(m_tailMutex)> const tailGuard(m_tailMutex);\n", "    bool stopNotified() const noexcept {\n")]),
    ("cc-stopnotified-wrong", ["C01"], [(TP, "    bool stopNotified() const noexcept {\n        std::lock_guard<decltype(m_tailMutex)> const tailGuard(m_tailMutex);\n", "    bool stopNotified() const noexcept {\n        std::lock_guard<std::mutex> const g(const_cast<std::mutex &>(m_headMutex));\n")]),
    ("cc-tp-head-unlocked", ["C01"], [(TP, "    Task waitAndPop() noexcept {\n        std::lock_guard<std::mutex> const headGuard(m_headMutex);\n", "    Task waitAndPop() noexcept {\n        { std::lock_guard<std::mutex> const headGuard(m_headMutex); }\n")]),
    ("cc-tp-timed-tail", ["C01"], [(TP, "                if (m_dataCond.wait_until(tailLock, timepoint)\n                    == std::cv_status::timeout)\n                    return {Task(), Timeout};", "                if (m_dataCond.wait_until(tailLock, timepoint)\n                    == std::cv_status::timeout) {\n                    tailLock.unlock();\n                    if (m_head.get() != m_tail) break;\n                    return {Task(), Timeout};\n                }")]),
    ("cc-pt-ctor-early", ["C01"], [(PT, "                        { return threadPool.m_numParticipants < max; });\n            ++threadPool", "                        { return threadPool.m_numParticipants < max; });\n            lock.unlock();\n            ++threadPool")]),
    ("cc-pt-timed-dec", ["C06"], [(PT, "            if (m_threadPool) {\n                std::lock_guard<std::mutex> const guard(m_threadPool->m_mutex);\n                assert(m_threadPool->m_numParticipants > 0u);\n                --m_threadPool->m_numParticipants;\n                m_threadPool->m_cond.notify_all();", "            if (m_threadPool) {\n                {\n                std::lock_guard<std::mutex> const guard(m_threadPool->m_mutex);\n                assert(m_threadPool->m_numParticipants > 0u);\n                --m_threadPool->m_numParticipants;\n                }\n                m_threadPool->m_cond.notify_all();")]),
    ("cc-pt-notify-cond", ["C03"], [(PT, "            --m_threadPool->m_numParticipants;\n            m_threadPool->m_cond.notify_all();\n        }\n\n        ParticipatorContext & operator", "            if (--m_threadPool->m_numParticipants > 1u)\n                m_threadPool->m_cond.notify_all();\n        }\n\n        ParticipatorContext & operator")]),
    ("cc-pt-join-any", ["C03"], [(PT, "{ return m_numParticipants <= 0u; }", "{ return m_numParticipants <= 1u; }")]),
    ("cc-pt-dtor", ["C05"], [(PT, "~ParticipatoryThreadPool() noexcept override { stopAndJoin(); }", "~ParticipatoryThreadPool() noexcept override { notifyStop(); }")]),
    ("cc-pt-join-first", ["C05"], [(PT, "        notifyStop();\n        join();", "        join();\n        notifyStop();")]),
    ("cc-stp-order", ["C05"], [(ST, "        notifyStop();\n        join();", "        join();\n        notifyStop();")]),
    ("cc-stel-stop", ["C05"], [(SE, "            this->stop();\n            m_thread.join();", "            m_thread.join();\n            this->stop();")]),
    ("cc-ns-order", ["C05"], [(NS, "    std::function<void()> m_func;\n    std::thread m_thread;", "    std::thread m_thread;\n    std::function<void()> m_func;"), (NS, "        : m_func(std::forward<F>(f))\n        , m_thread(&NoStartThread::run_, this)", "        : m_thread(&NoStartThread::run_, this)\n        , m_func(std::forward<F>(f))")]),
    ("cc-ns-true", ["C10"], [(NS, "            m_startPromise.setValue(false);", "            m_startPromise.setValue(static_cast<bool>(m_func));")]),
    ("cc-ns-nofunc", ["C10"], [(NS, "takeValue() && m_func)", "takeValue() || m_func)")]),
    ("cc-sw-if", ["C03"], [(SW, "        while (!m_isReady)\n            m_cond.wait(lock);", "        if (!m_isReady)\n            m_cond.wait(lock);")]),
    ("cc-sw-stop", ["C03"], [(SW, "                != std::cv_status::no_timeout)\n            {\n                stopTest();\n            }", "                != std::cv_status::no_timeout)\n            {\n                stopTest();\n                break;\n            }")]),
    ("cc-sw-stop-unlock", ["C02"], [(SW, "                stopTest();", "                lock.unlock();\n                stopTest();")]),
    ("cc-la-ready", ["C01"], [(LA, "        std::unique_lock<std::mutex> lock(m_mutex);\n        return !m_counter;", "        return !m_counter;")]),
    ("cc-la-one", ["C03"], [(LA, "        if (!--m_counter) {\n            m_cond.notify_all();", "        if (!--m_counter) {\n            m_cond.notify_one();")]),
    ("cc-tt-notify-nonempty", ["C03"], [(TT, "        m_tasks.insert(t);\n        m_cond.notify_one();", "        if (m_tasks.insert(t) != m_tasks.begin())\n            m_cond.notify_one();")]),
    ("cc-tt-time-late", ["C10"], [(TT, "        m_tasks.insert(t);\n        m_cond.notify_one();", "        m_tasks.insert(t);\n        t.m_timePoint = std::forward<TimePoint>(timePoint);\n        m_cond.notify_one();"), (TT, "        t.m_timePoint = std::forward<TimePoint>(timePoint);\n        std::lock_guard<std::mutex> const guard(m_mutex);\n", "        std::lock_guard<std::mutex> const guard(m_mutex);\n")]),
    ("cc-tt-less", ["C10"], [(TT, "        bool operator<(Task const & rhs) const noexcept\n        { return m_timePoint < rhs.m_timePoint; }", "        bool operator<(Task const & rhs) const noexcept\n        { return m_timePoint <= rhs.m_timePoint; }")]),
    ("cc-tt-last", ["C10"], [(TT, "                        m_data.begin(),\n                        [&r]", "                        std::prev(m_data.end()),\n                        [&r]")]),
    ("cc-tt-early", ["C10"], [(TT, "if (nextTimePoint <= Clock::now())", "if (nextTimePoint <= Clock::now() + std::chrono::milliseconds(1))")]),
    ("cc-tt-woken", ["C10"], [(TT, "                            == std::cv_status::timeout)\n                            break;", "                            == std::cv_status::no_timeout)\n                            break;")]),
    ("cc-sd-run-lock", ["C04"], [(SD, "                    task = std::move(m_head);\n                    m_head = std::move(task->m_next);\n                }\n", "                    task = std::move(m_head);\n                    m_head = std::move(task->m_next);\n                }\n                std::lock_guard<decltype(m_tailMutex)> const guard2(m_tailMutex);\n")]),
    ("cc-sd-join-notify", ["C03"], [(SD, "                        m_sliceTask = std::move(sliceTask);\n                        m_joinCond.notify_all();\n                        return;", "                        m_sliceTask = std::move(sliceTask);\n                        return;")]),
    ("cc-sd-empty", ["C10"], [(SD, "            if (m_threadPool && (m_head.get() != m_tail)) {", "            if (m_threadPool && m_head->m_next && (m_head->m_next.get() != m_tail)) {")]),
    ("cc-sd-parallel", ["C10"], [(SD, "            if (m_sliceTask && m_threadPool)\n                m_threadPool->submit(std::move(m_sliceTask));", "            if (m_threadPool)\n                m_threadPool->submit(std::move(m_sliceTask));")]),
    ("cc-sd-maybe", ["C10"], [(SD, "            if (!CallStack<CallStackRecursionIndicator>::contains(", "            if (CallStack<CallStackRecursionIndicator>::contains(")]),
    ("cc-sd-maybe-unlocked", ["C01"], [(SD, "            {\n                std::lock_guard<decltype(m_tailMutex)> const tailGuard(\n                            m_tailMutex);\n                gcThreadPool = std::move(m_threadPool);\n            }\n            return gc", "            gcThreadPool = std::move(m_threadPool);\n            return gc")]),
    ("cc-sd-temp", ["C10"], [(SD, "            CallStack<CallStackRecursionIndicator>::Context context(this);\n            {", "            { CallStack<CallStackRecursionIndicator>::Context context(this); }\n            {")]),
    ("cs-top-only", ["C10"], [("CallStack.h", "        for (auto c = m_topContext; c != nullptr; c = c->m_next)\n            if (c->m_key == key)", "        if (auto c = m_topContext)\n            if (c->m_key == key)")]),
    ("cs-pop-null", ["C10"], [("CallStack.h", "        ~Context() noexcept { CallStack::m_topContext = m_next; }", "        ~Context() noexcept { CallStack::m_topContext = nullptr; }")]),
    ("cs-skip-top", ["C10"], [("CallStack.h", "        for (auto c = m_topContext; c != nullptr; c = c->m_next)\n            if (c->m_key == key)", "        for (auto c = m_topContext; c && c->m_next; c = c->m_next)\n            if (c->m_key == key)")]),
    ("cc-sd-dtor", ["C10"], [(SD, "~Strand() noexcept { m_internal->stopAndJoin(); }", "~Strand() noexcept { m_internal->stopAndMaybeJoin(); }")]),
    ("cc-ot-count", ["C01"], [(OT, "    typename ChildNodes::size_type numChildren() const noexcept {\n        lock_guard lock(m_mutex);", "    typename ChildNodes::size_type numChildren() const noexcept {")]),
    ("cc-ot-children", ["C01"], [(OT, "    std::set<ChildType *> children() const {\n        lock_guard lock(m_mutex);", "    std::set<ChildType *> children() const {\n        { lock_guard lock(m_mutex); }")]),
    ("cc-ot-nounlock", ["C02"], [(OT, "        ~lock_guard() noexcept { m_mutex.unlock(); }", "        ~lock_guard() noexcept { if (!std::uncaught_exception()) m_mutex.unlock(); }")]),
    ("cc-ot-twice", ["C02"], [(OT, "        assert(!m_childNodes.count(childNode));\n        assert(!childrenNoLock().count(childNode->realChild()));\n        m_childNodes.insert", "        (void) numChildren();\n        m_childNodes.insert")]),
]
EQUIV = [
    ("cc-eq-tp-pop", ALL, [(TP, "        assert(m_head->m_value);\n        Task oldHead(std::move(m_head));\n        m_head = std::move(oldHead->m_next);\n        return oldHead;", "        return popHead_();"), (TP, "    template <typename TaskSubclass>\n    static Task createTask_", "    Task popHead_() noexcept {\n        assert(m_head->m_value);\n        Task r;\n        r.swap(m_head);\n        m_head.swap(r->m_next);\n        return r;\n    }\n\n    template <typename TaskSubclass>\n    static Task createTask_")]),
    ("cc-eq-tp-wait", ALL, [(TP, "                m_dataCond.wait(tailLock);\n            }\n        }", "                m_dataCond.wait(tailLock, [this]() noexcept { return m_stop || (m_head.get() != m_tail); });\n            }\n        }")]),
    ("cc-eq-tp-while", ALL, [(TP, "            for (;;) {\n                if (m_stop)\n                    return Task();\n                if (m_head.get() != m_tail)\n                    break;\n", "            while (m_stop || m_head.get() == m_tail) {\n                if (m_stop)\n                    return nullptr;\n")]),
    ("cc-eq-tp-run", ALL, [(TP, "        while (Task task = waitAndPop()) {\n            // this->m_value(std::move(*this)); // would segfault.\n            TaskWrapper * const taskPtr = task.get();\n            assert(taskPtr);\n            assert(taskPtr->m_value);\n            taskPtr->m_value->operator()(std::move(task));\n        }", "        while (oneTaskWorkerThread()) {}")]),
    ("cc-eq-tp-run2", ALL, [(TP, "        while (Task task = waitAndPop()) {\n            // this->m_value(std::move(*this)); // would segfault.\n            TaskWrapper * const taskPtr = task.get();\n            assert(taskPtr);\n            assert(taskPtr->m_value);\n            taskPtr->m_value->operator()(std::move(task));\n        }", "        for (;;) {\n            Task task(waitAndPop());\n            if (!task)\n                return;\n            runTask_(std::move(task));\n        }"), (TP, "    template <typename TaskSubclass>\n    static Task createTask_", "    static void runTask_(Task task) {\n        TaskBase & base = *task->m_value;\n        base(std::move(task));\n    }\n\n    template <typename TaskSubclass>\n    static Task createTask_")]),
    ("cc-eq-tp-submit", ALL, [(TP, "        TaskWrapper * const newTail = task.get();\n        std::lock_guard<decltype(m_tailMutex)> const tailGuard(m_tailMutex);\n        TaskWrapper * const oldTail = m_tail;\n        oldTail->m_value = std::move(task->m_value);\n        oldTail->m_next = std::move(task);\n        m_tail = newTail;\n        m_dataCond.notify_one();", "        std::unique_lock<decltype(m_tailMutex)> lock(m_tailMutex);\n        m_tail->m_value.swap(task->m_value);\n        m_tail->m_next = std::move(task);\n        m_tail = m_tail->m_next.get();\n        m_dataCond.notify_one();")]),
    ("cc-eq-tp-timed", ALL, [(TP, "            auto r(waitAndPop(timepoint));\n            if (r.first) {\n                // this->m_value(std::move(*this)); // would segfault.\n                TaskWrapper * const taskPtr = r.first.get();\n                assert(taskPtr);\n                assert(taskPtr->m_value);\n                taskPtr->m_value->operator()(std::move(r.first));\n            } else {\n                return r.second;\n            }", "            auto const s(oneTaskWorkerThreadUntil(timepoint));\n            if (s != Ok)\n                return s;")]),
    ("cc-eq-tp-stop", ALL, [(TP, "        m_stop = true;\n        m_dataCond.notify_all();", "        if (!m_stop) {\n            m_stop = true;\n            m_dataCond.notify_all();\n        }")]),
    ("cc-eq-pt-loop", ALL, [(PT, "        m_cond.wait(lock,\n                    [this]() noexcept { return m_numParticipants <= 0u; });", "        while (m_numParticipants != 0u)\n            m_cond.wait(lock);")]),
    ("cc-eq-pt-leave", ALL, [(PT, "            std::lock_guard<std::mutex> const guard(m_threadPool->m_mutex);\n            assert(m_threadPool->m_numParticipants > 0u);\n            --m_threadPool->m_numParticipants;\n            m_threadPool->m_cond.notify_all();\n        }\n\n        ParticipatorContext & operator", "            leave_(*m_threadPool);\n        }\n\n        static void leave_(ParticipatoryThreadPool & pool) noexcept {\n            std::unique_lock<std::mutex> lock(pool.m_mutex);\n            assert(pool.m_numParticipants > 0u);\n            pool.m_numParticipants -= 1u;\n            pool.m_cond.notify_all();\n        }\n\n        ParticipatorContext & operator")]),
    ("cc-eq-stp-ctor", ALL, [(ST, "            for (unsigned i = 0u; i < numThreads; i++)\n                m_threads.emplace_back(&SimpleThreadPool::workerThread, this);", "            while (m_threads.size() < numThreads)\n                m_threads.emplace_back([this]() { workerThread(); });")]),
    ("cc-eq-stp-join", ALL, [(ST, "        for (std::thread & thread : m_threads)\n            if (((void) assert(thread.get_id() != myId), thread.joinable()))\n                thread.join();", "        for (auto it = m_threads.begin(); it != m_threads.end(); ++it) {\n            assert(it->get_id() != myId);\n            if (!it->joinable())\n                continue;\n            it->join();\n        }")]),
    ("cc-eq-stel", ALL, [(SE, "        if (m_thread.joinable()) {\n            this->stop();\n            m_thread.join();\n        }", "        if (!m_thread.joinable())\n            return;\n        this->stop();\n        m_thread.join();")]),
    ("cc-eq-ns-run", ALL, [(NS, "        if (m_startPromise.takeFuture().takeValue() && m_func)\n            m_func();", "        auto future(m_startPromise.takeFuture());\n        bool const started = future.takeValue();\n        if (!started || !m_func)\n            return;\n        m_func();")]),
    ("cc-eq-ns-stop", ALL, [(NS, "        if (m_startPromise.isValid())\n            m_startPromise.setValue(false);\n        if (m_thread.joinable())\n            m_thread.join();", "        if (m_startPromise.isValid())\n            m_startPromise.setValue(false);\n        if (joinable())\n            join();")]),
    ("cc-eq-sw", ALL, [(SW, "        while (!m_isReady) {\n            if (m_cond.wait_for(lock, loopDuration)\n                != std::cv_status::no_timeout)\n            {\n                stopTest();\n            }\n        }", "        for (;;) {\n            if (m_isReady)\n                return;\n            if (m_cond.wait_for(lock, loopDuration)\n                == std::cv_status::timeout)\n                stopTest();\n        }")]),
    ("cc-eq-la", ALL, [(LA, "        if (!--m_counter) {\n            m_cond.notify_all();\n        } else {\n            m_cond.wait(lock, [this]() noexcept { return !m_counter; });\n        }", "        --m_counter;\n        if (m_counter == 0u)\n            m_cond.notify_all();\n        while (m_counter > 0u)\n            m_cond.wait(lock);")]),
    ("cc-eq-tt-now", ALL, [(TT, "                        if (nextTimePoint <= Clock::now())\n                            break;", "                        auto const now(Clock::now());\n                        if (!(now < nextTimePoint))\n                            break;")]),
    ("cc-eq-tt-add", ALL, [(TT, "        std::lock_guard<std::mutex> const guard(m_mutex);\n        m_tasks.insert(t);\n        m_cond.notify_one();", "        insert_(t);"), (TT, "    void run() noexcept {", "    void insert_(Task & t) noexcept {\n        std::unique_lock<std::mutex> lock(m_mutex);\n        m_tasks.insert(t);\n        m_cond.notify_all();\n    }\n\n    void run() noexcept {")]),
    ("cc-eq-tt-take", ALL, [(TT, "                std::unique_ptr<Task> runTask;\n                {\n", "                auto runTask(waitForTask_());\n#if 0\n                {\n"), (TT, "                } // Release lock\n", "                } // Release lock\n#endif\n"), (TT, "    void run() noexcept {", "    std::unique_ptr<Task> waitForTask_() noexcept {\n        std::unique_lock<std::mutex> lock(m_mutex);\n        m_cond.wait(lock, [this]() noexcept { return !m_tasks.empty(); });\n        for (;;) {\n            auto const next(m_tasks.begin()->m_timePoint);\n            if (next <= Clock::now() || m_cond.wait_until(lock, next) == std::cv_status::timeout)\n                break;\n        }\n        return m_tasks.takeFirstTask();\n    }\n\n    void run() noexcept {")]),
    ("cc-eq-tt-stop", ALL, [(TT, "        std::unique_ptr<Task> stopTask;\n        {\n            std::lock_guard<std::mutex> const guard(m_mutex);\n            stopTask = std::move(m_stopTask);\n        }\n        if (stopTask)\n", "        std::unique_lock<std::mutex> lock(m_mutex);\n        std::unique_ptr<Task> stopTask;\n        stopTask.swap(m_stopTask);\n        lock.unlock();\n        if (stopTask)\n")]),
    ("cc-eq-sd-idle", ALL, [(SD, "            std::lock_guard<decltype(m_tailMutex)> tailGuard(m_tailMutex);\n            if (m_threadPool && (m_head.get() != m_tail)) {\n                m_threadPool->submit(std::move(sliceTask));\n            } else {\n                /* Deallocation of sliceTask will be handled by the\n                   std::shared_ptr instance to this Inner object instead. */\n                assert(!m_sliceTask);\n                m_sliceTask = std::move(sliceTask);\n                m_joinCond.notify_all();\n            }", "            std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);\n            bool const again = m_threadPool && (m_head.get() != m_tail);\n            if (again)\n                return m_threadPool->submit(std::move(sliceTask));\n            goIdle_(std::move(sliceTask));"), (SD, "        std::shared_ptr<ThreadPool> stopAndJoin() noexcept {\n            std::shared", "        void goIdle_(ThreadPool::Task && sliceTask) noexcept {\n            m_sliceTask = std::move(sliceTask);\n            m_joinCond.notify_all();\n        }\n\n        std::shared_ptr<ThreadPool> stopAndJoin() noexcept {\n            std::shared")]),
    ("cc-eq-sd-submit", ALL, [(SD, "            ThreadPool::TaskWrapper * const newTail = task.get();\n            std::lock_guard<decltype(m_tailMutex)> const guard(m_tailMutex);\n            ThreadPool::TaskWrapper * const oldTail = m_tail;\n            oldTail->m_value = std::move(task->m_value);\n            oldTail->m_next = std::move(task);\n            m_tail = newTail;\n\n            if (m_sliceTask && m_threadPool)\n                m_threadPool", "            std::lock_guard<decltype(m_tailMutex)> const guard(m_tailMutex);\n            auto const oldTail(m_tail);\n            m_tail = task.get();\n            oldTail->m_value = std::move(task->m_value);\n            oldTail->m_next = std::move(task);\n\n            if (!m_threadPool)\n                return;\n            if (m_sliceTask)\n                m_threadPool")]),
    ("cs-eq-while", ["C10"], [("CallStack.h", "        for (auto c = m_topContext; c != nullptr; c = c->m_next)\n            if (c->m_key == key)\n                return c;\n        return nullptr;", "        auto c = m_topContext;\n        while (c && !(key == c->m_key))\n            c = c->m_next;\n        return c;")]),
    ("cs-eq-sd", ["C10"], [("Strand.h", "            if (!CallStack<CallStackRecursionIndicator>::contains(\n                    CallStackRecursionIndicator(this)))\n                return stopAndJoin();", "            bool const inside = CallStack<CallStackRecursionIndicator>::contains(\n                    CallStackRecursionIndicator(this)) != nullptr;\n            if (!inside)\n                return stopAndJoin();")]),
    ("cc-eq-sd-join", ALL, [(SD, "            m_joinCond.wait(tailLock,\n                            [this]() noexcept { return m_sliceTask.get(); });", "            while (!m_sliceTask)\n                m_joinCond.wait(tailLock);")]),
    ("cc-eq-ot", ALL, [(OT, "        std::set<ChildType *> cs;\n        for (ChildNodeType const * const childNode : m_childNodes)\n            cs.insert(childNode->realChild());\n        return cs;", "        std::set<ChildType *> cs;\n        for (auto it = m_childNodes.cbegin(); it != m_childNodes.cend(); ++it)\n            cs.emplace((*it)->realChild());\n        return cs;")]),
]
