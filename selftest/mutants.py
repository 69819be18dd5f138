# (name, [properties], [(file, old, new)...])
MUTANTS = [
 ("futurenotify", ["C03"], [("Future.h", "cond.notify_all(); \\\n", "\\\n")]),
 ("futureone", ["C03"], [("Future.h", "cond.notify_all(); \\\n", "cond.notify_one(); \\\n")]),
 ("tp-timed-nostop", ["C03"], [("ThreadPool.h", "                if (m_stop)\n                    return {Task(), StopNotified};\n", "")]),
 ("ptp-notify", ["C03"], [("ParticipatoryThreadPool.h", "m_threadPool->m_cond.notify_all();", "m_threadPool->m_cond.notify_one();")]),
 ("resmap-notify", ["C03"], [("SharedResourceMap.h", "                            c.m_cond.notify_all();\n", "")]),
 ("tt-run-locked", ["C04"], [("TimeoutsThread.h", """                    runTask = m_tasks.takeFirstTask();
                } // Release lock

                // Execute expired task:
                assert(runTask);
                auto & runTaskRef = *runTask.get();
                runTaskRef(std::move(runTask));""", """                    runTask = m_tasks.takeFirstTask();

                // Execute expired task:
                assert(runTask);
                auto & runTaskRef = *runTask.get();
                runTaskRef(std::move(runTask));
                } // Release lock""")]),
 ("future-then-locked", ["C04"], [("Future.h", "if (isSet) \\\n                        return c;", "if (isSet) { \\\n                        c->run(); return nullptr; }")]),
 ("tt-swap", ["C05"], [("TimeoutsThread.h", "        stop();\n        m_thread.join();", "        m_thread.join();\n        stop();")]),
 ("tt-nostop", ["C05"], [("TimeoutsThread.h", "        stop();\n        m_thread.join();", "        m_thread.join();")]),
 ("tt-order", ["C05"], [("TimeoutsThread.h", "    Tasks m_tasks;\n\n    std::thread m_thread{&TimeoutsThread::run, this};", "    std::thread m_thread{&TimeoutsThread::run, this};\n    Tasks m_tasks;\n")]),
 ("stp-nojoin", ["C05"], [("SimpleThreadPool.h", "        } catch (...) {\n            stopAndJoin();", "        } catch (...) {\n            notifyStop();")]),
 ("nst-dtor", ["C05"], [("NoStartThread.h", "~NoStartThread() noexcept { stop(); }", "~NoStartThread() noexcept { if (m_thread.joinable()) m_thread.join(); }")]),
 ("stel-dtor", ["C05"], [("SingleThreadEventLoop.h", "            this->stop();\n            m_thread.join();", "            m_thread.join();\n            this->stop();")]),
 ("latch-late", ["C06"], [("Latch.h", """        std::lock_guard<std::mutex> const guard(m_mutex);
        assert(m_counter > 0u);
        bool const r = !--m_counter;
""", """        bool r;
        { std::lock_guard<std::mutex> const guard(m_mutex);
        assert(m_counter > 0u);
        r = !--m_counter; }
""")]),
 ("simplewait-late", ["C06"], [("SimpleWait.h", "        std::lock_guard<std::mutex> lock(m_mutex);\n        m_isReady = true;\n", "        { std::lock_guard<std::mutex> lock(m_mutex);\n        m_isReady = true; }\n")]),
]
ALLMON = ["C01", "C02", "C03", "C04", "C05", "C06"]
EQUIV = [
 ("latch-while", ALLMON, [("Latch.h", "m_cond.wait(lock, [this]() noexcept { return !m_counter; });", "while (m_counter) m_cond.wait(lock);")]),
 ("latch-helper", ALLMON, [("Latch.h", "        bool const r = !--m_counter;\n        if (r)\n            m_cond.notify_all();\n        return r;\n    }\n", "        return dec_();\n    }\n    bool dec_() noexcept { if (--m_counter != 0) return false; m_cond.notify_all(); return true; }\n")]),
 ("sw-order", ALLMON, [("SimpleWait.h", "        m_isReady = true;\n        m_cond.notify_all();", "        m_cond.notify_all();\n        m_isReady = true;")]),
 ("tt-lambda", ALLMON, [("TimeoutsThread.h", "while (m_tasks.empty())\n                        m_cond.wait(lock);", "m_cond.wait(lock, [this]() noexcept { return !m_tasks.empty(); });")]),
 ("tt-explicit-unlock", ALLMON, [("TimeoutsThread.h", "                std::unique_ptr<Task> runTask;\n                {\n", "                std::unique_ptr<Task> runTask;\n"), ("TimeoutsThread.h", "                } // Release lock", "                lock.unlock();")]),
 ("tp-while", ALLMON, [("ThreadPool.h", "        m_dataCond.notify_one();\n", "        m_dataCond.notify_all();\n")]),
 ("resmap-guard", ALLMON, [("SharedResourceMap.h", "std::unique_lock<std::mutex> lock(m_mutex);\n            resources.reserve", "std::lock_guard<std::mutex> const lock(m_mutex);\n            resources.reserve")]),
 ("future-single-exit", ALLMON, [("Future.h", """                    if (isSet) \\
                        return c; \\
                    m_continuation = std::move(c); \\
                    return nullptr; \\
""", """                    if (!isSet) \\
                        m_continuation = std::move(c); \\
                    return c; \\
""")]),
 ("nst-dtor2", ALLMON, [("NoStartThread.h", "~NoStartThread() noexcept { stop(); }", "~NoStartThread() noexcept { if (m_startPromise.isValid()) m_startPromise.setValue(false); if (m_thread.joinable()) join(); }")]),
]
