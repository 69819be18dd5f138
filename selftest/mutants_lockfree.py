T = "TicketSpinLock.h"
Q = "MpscWaitFreeSemiIntrusiveQueue.h"
A = "AtomicFlags.h"
MUTANTS = [
 ("tsl-relaxed-load", ["C09"], [(T, "while (ticket != m_active.load(std::memory_order_acquire))", "while (ticket != m_active.load(std::memory_order_relaxed))")]),
 ("tsl-relaxed-store", ["C09"], [(T, "                       std::memory_order_release);", "                       std::memory_order_relaxed);")]),
 ("tsl-two-step", ["C09"], [(T, "auto const ticket = m_next.fetch_add(1u, std::memory_order_relaxed);", "auto const ticket = m_next.load(std::memory_order_relaxed); m_next.store(ticket + 1u, std::memory_order_relaxed);")]),
 ("tsl-lt", ["C09"], [(T, "while (ticket != m_active", "while (ticket > m_active")]),
 ("tsl-init", ["C09"], [(T, "std::atomic_size_t m_next{0u};", "std::atomic_size_t m_next{1u};")]),
 ("q-xchg-release", ["C09"], [(Q, "m_tail.exchange(newNode, std::memory_order_acq_rel)", "m_tail.exchange(newNode, std::memory_order_release)")]),
 ("q-link-relaxed", ["C09"], [(Q, "oldTail->next.store(newNode, std::memory_order_release)", "oldTail->next.store(newNode, std::memory_order_relaxed)")]),
 ("q-next-relaxed", ["C09"], [(Q, "head->next.load(std::memory_order_acquire)", "head->next.load(std::memory_order_relaxed)")]),
 ("q-no-unlink", ["C09"], [(Q, "        head->next.store(nullptr, std::memory_order_relaxed);\n", "")]),
 ("q-push-loadstore", ["C09"], [(Q, """                m_tail.exchange(newNode, std::memory_order_acq_rel);""", """                m_tail.load(std::memory_order_acquire);
        m_tail.store(newNode, std::memory_order_release);""")]),
 ("q-pop-nodata", ["C09"], [(Q, "        head->data = std::move(next->data);\n", "")]),
 ("q-dtor-leak", ["C09"], [(Q, "        delete m_head.load(std::memory_order_relaxed);\n", "")]),
 ("q-dtor-early", ["C09"], [(Q, "        while (pop());\n", "        pop();\n")]),
 ("af-order", ["C09"], [(A, "{ return m_flags.fetch_xor(flags, memoryOrder); }", "{ return m_flags.fetch_xor(flags, std::memory_order_relaxed); }")]),
 ("af-two", ["C09"], [(A, "{ return m_flags.fetch_or(flags, memoryOrder); }", "{ auto const o = m_flags.load(memoryOrder); m_flags.store(o | flags); return o; }")]),
 ("af-fail", ["C09"], [(A, "{ return m_flags.compare_exchange_weak(expected, flags, success, failure); }", "{ return m_flags.compare_exchange_weak(expected, flags, success); }")]),
 ("af-all", ["C09"], [(A, "{ return load(memoryOrder).hasAllOf(flags); }", "{ return load(memoryOrder).hasAnyOf(flags); }")]),
 ("af-none", ["C09"], [(A, "{ return load(memoryOrder).hasNoneOf(flags); }", "{ return !load(memoryOrder).hasAllOf(flags); }")]),
]
EQUIV = [
 ("q-eq1", ["C09"], [(Q, """        head->data = std::move(next->data);
        m_head.store(next, std::memory_order_release);
        head->next.store(nullptr, std::memory_order_relaxed);
""", """        m_head.store(next, std::memory_order_release);
        head->next.store(nullptr, std::memory_order_relaxed);
        head->data = std::move(next->data);
""")]),
 ("q-eq2", ["C09"], [(Q, "        if (!next)\n            return nullptr;\n\n", "        std::unique_ptr<Node> r;\n        if (next) {\n"), (Q, "        return std::unique_ptr<Node>{head};\n", "        r.reset(head);\n        }\n        return r;\n")]),
 ("tsl-eq", ["C09"], [(T, """        while (ticket != m_active.load(std::memory_order_acquire))
            spinWait();""", """        for (;;) {
            auto const cur = m_active.load(std::memory_order_acquire);
            if (cur == ticket)
                return;
            spinWait();
        }"""), (T, """        m_active.store(m_active.load(std::memory_order_relaxed) + 1u,
                       std::memory_order_release);""", "        m_active.fetch_add(1u, std::memory_order_release);")]),
 ("q-eq3", ["C09"], [(Q, "        while (pop());\n", "        for (;;) { auto n(pop()); if (!n) break; }\n")]),
 ("af-eq", ["C09"], [(A, "{ return exchange(static_cast<U>(0), memoryOrder); }", "{ return m_flags.exchange(U{}, memoryOrder); }"), (A, "{ return load(memoryOrder).hasNoneOf(flags); }", "{ return (load(memoryOrder).load() & flags) == 0u; }")]),
]
