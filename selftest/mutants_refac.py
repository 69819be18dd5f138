"""refactorings which do not change what the code does, in the style of a
maintainer tidying up: helpers extracted, statements reordered, loops rewritten"""
EV, FU, FD, RM, NM, DA, CB, MQ, TS = ("EventLoop.h", "Future.h", "FileDescriptor.h", "SharedResourceMap.h",
    "NetworkMessage.h", "Datum.h", "CircBufferSCSP.h", "MpscWaitFreeSemiIntrusiveQueue.h", "TicketSpinLock.h")
EVP = ["C01", "C02", "C03", "C04", "C12", "C13"]
FUP = ["C01", "C02", "C03", "C04", "C05", "C07", "C08"]
MUTANTS = [
    ("rf-nm-bool-inv", ["C15"], [(NM, """    switch (temp) {
        case 0u:
            val = false;
            return true;
        case 1u:
            val = true;
            return true;
        default:
            m_offset = rollbackOffset;
            return false;
    }""", """    if (temp > 1u) {
        m_offset = rollbackOffset;
        return false;
    }
    val = (temp == 0u);
    return true;""")]),
]
EQUIV = [
    ("rf-ev-try", EVP, [(EV, """        auto const start = m_loopCounter.load(std::memory_order_acquire);
        if (m_stopMutex.try_lock()) {
            m_stopMutex.unlock();
            return;
        }
""", """        auto const start = m_loopCounter.load(std::memory_order_acquire);

        if (notRunning_())
            return;
"""), (EV, """            if (m_stopMutex.try_lock()) {
                m_stopMutex.unlock();
                return;
            }
            spinFunction();""", """            if (notRunning_())
                return;
            spinFunction();"""), (EV, """    void loopIterationFinish() noexcept
""", """    bool notRunning_() noexcept {
        std::unique_lock<std::mutex> const lock(m_stopMutex, std::try_to_lock);
        return lock.owns_lock();
    }

    void loopIterationFinish() noexcept
""")]),
    ("rf-ev-remove", EVP, [(EV, """        while (::epoll_ctl(m_epoll.fd, EPOLL_CTL_DEL, fd, nullptr) != 0) {
            if (errno == EAGAIN || errno == EINTR)
                continue;
            if (errno == ENOENT)
                return false;
            throwNested(ErrnoException(errno), EpollCtlException());
        }
        return true;""", """        for (;;) {
            if (::epoll_ctl(m_epoll.fd, EPOLL_CTL_DEL, fd, nullptr) == 0)
                return true;
            auto const e = errno;
            switch (e) {
                case EINTR:
                case EAGAIN:
                    break;
                case ENOENT:
                    return false;
                default:
                    throwNested(ErrnoException(e), EpollCtlException());
            }
        }""")]),
    ("rf-ev-index", EVP, [(EV, """                    while (++it < eventsEnd) {
                        assert(it->data.ptr != nullptr);
                        handleEvent(*it);
                    }
""", """                    for (++it; it != eventsEnd; ++it)
                        handleEvent(*it);
""")]),
    ("rf-ev-finish", EVP, [(EV, """    { m_loopCounter.fetch_add(1u, std::memory_order_release); }""", """    { m_loopCounter += 1u; }""")]),
    ("rf-fu-ready", FUP, [(FU, """    bool ready() noexcept { \\
        std::lock_guard<std::mutex> const guard(mutex); \\
        return isSet; \\
    } \\""", """    bool ready() noexcept { \\
        std::unique_lock<std::mutex> lock(mutex); \\
        bool const r = isSet; \\
        lock.unlock(); \\
        return r; \\
    } \\""")]),
    ("rf-fu-wait", FUP, [(FU, """        return cond.wait(lock, [this]() noexcept { return isSet; }); \\""", """        while (!isSet) \\
            cond.wait(lock); \\""")]),
    ("rf-fu-wait2", FUP, [(FU, """        std::unique_lock<std::mutex> lock(mutex); \\
        return cond.wait(lock, [this]() noexcept { return isSet; }); \\""", """        (void) waitReadyLock(); \\""")]),
    ("rf-fu-then", FUP, [(FU, """        if (auto const cont = \\
                [this](ContinuationPtr c) noexcept -> ContinuationPtr { \\
                    std::lock_guard<std::mutex> const guard(mutex); \\
                    assert(!m_continuation); \\
                    if (isSet) \\
                        return c; \\
                    m_continuation = std::move(c); \\
                    return nullptr; \\
                }(std::move(continuation))) \\
            cont->run(); \\""", """        { \\
            std::lock_guard<std::mutex> const guard(mutex); \\
            assert(!m_continuation); \\
            if (!isSet) \\
                m_continuation = std::move(continuation); \\
        } \\
        if (continuation) \\
            continuation->run(); \\""")]),
    ("rf-fu-void", FUP, [(FU, """        if (auto const continuation =
                [this]() noexcept -> ContinuationPtr {
                    std::lock_guard<std::mutex> const guard(mutex);
                    assert(!isSet);
                    isSet = true;
                    cond.notify_all();
                    return std::move(m_continuation);
                }())
            continuation->run();""", """        ContinuationPtr continuation;
        {
            std::lock_guard<std::mutex> const guard(mutex);
            assert(!isSet);
            continuation = std::move(m_continuation);
            isSet = true;
            cond.notify_all();
        }
        if (continuation)
            continuation->run();""")]),
    ("rf-fu-cont", FUP, [(FU, """            auto f2(f(std::move(fut)));
            if (f2.isValid()) {
                f2.takeValue();
                p.setReady();
            } else {
                p.setException(BrokenPromiseException());
            }""", """            auto f2(f(std::move(fut)));
            if (!f2.isValid()) {
                p.setException(BrokenPromiseException());
                return;
            }
            f2.takeValue();
            p.setReady();""")]),
    ("rf-fd-move", ["C12", "C13"], [(FD, """        : m_fd(move.m_fd)
    { move.m_fd = -1; }""", """        : m_fd(move.release())
    {}"""), (FD, """            close();
            m_fd = move.m_fd;
            move.m_fd = -1;""", """            close();
            m_fd = move.release();""")]),
    ("rf-fd-reset", ["C12", "C13"], [(FD, """        if (m_fd != fd) {
            close();
            m_fd = fd;
        }""", """        if (m_fd == fd)
            return;
        int const old = m_fd;
        m_fd = fd;
        if (old != -1)
            ::close(old);""")]),
    ("rf-fd-close", ["C12", "C13"], [(FD, """        if (m_fd != -1) {
            ::close(m_fd);
            m_fd = -1;
        }""", """        int const fd = release();
        if (fd != -1)
            ::close(fd);""")]),
    ("rf-rm-foreach", ["C01", "C02", "C03", "C04", "C18"], [(RM, """            for (auto const & v : m_data) {
                if (auto ptr = v.second->weakPtr.lock()) {
                    resources.push_back(ptr);
                    f(v.first, std::move(ptr));
                }
            }""", """            for (auto it = m_data.begin(); it != m_data.end(); ++it) {
                auto ptr(it->second->weakPtr.lock());
                if (!ptr)
                    continue;
                resources.push_back(ptr);
                f(it->first, std::move(ptr));
            }""")]),
    ("rf-rm-deleter", ["C01", "C02", "C03", "C04", "C18"], [(RM, """                        if ((it != c.m_data.end())
                            && it->second->weakPtr.expired())
                        {
                            obj.reset();
                            c.m_data.erase(it);
                            c.m_cond.notify_all();
                        }""", """                        if (it == c.m_data.end())
                            return;
                        if (!it->second->weakPtr.expired())
                            return;
                        c.m_data.erase(it);
                        obj.reset();
                        c.m_cond.notify_all();""")]),
    ("rf-nm-bool", ["C15"], [(NM, """    switch (temp) {
        case 0u:
            val = false;
            return true;
        case 1u:
            val = true;
            return true;
        default:
            m_offset = rollbackOffset;
            return false;
    }""", """    if (temp > 1u) {
        m_offset = rollbackOffset;
        return false;
    }
    val = (temp == 1u);
    return true;""")]),
    ("rf-nm-bytes", ["C15"], [(NM, """    if (this->size - m_offset < size)
        return false;

    std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
    m_offset += size;
    return true;""", """    bool const enough = size <= getRemainingSize();
    if (enough) {
        std::memcpy(buffer,
                    static_cast<char const *>(this->data) + m_offset,
                    size);
        m_offset = m_offset + size;
    }
    return enough;""")]),
    ("rf-nm-string", ["C15"], [(NM, """    if (length > this->size - m_offset) {
        m_offset = rollbackOffset;
        return false;
    }

    auto const s = static_cast<char const *>(this->data) + m_offset;
    try {
        val.assign(s, s + length);
    } catch (...) {
        m_offset = rollbackOffset;
        throw;
    }
    m_offset += length;
    return true;""", """    if (length <= this->size - m_offset) {
        try {
            auto const s = static_cast<char const *>(this->data) + m_offset;
            val.assign(s, length);
        } catch (...) {
            m_offset = rollbackOffset;
            throw;
        }
        m_offset += length;
        return true;
    }
    m_offset = rollbackOffset;
    return false;""")]),
    ("rf-nm-array", ["C15"], [(NM, """    auto const sizeInBytes(sizeof(T) * size);
    if (getRemainingSize() < sizeInBytes)
        return false;

    std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
    m_offset += sizeInBytes;
    return true;""", """    return readBytes(data, sizeof(T) * size);""")]),
    ("rf-da-loop", ["C21", "C12", "C13"], [(DA, """                    if (read == 0) {
                        throw FileSizeChangedException();
                    } else if (read < 0) {
                        assert(read == -1);
                        if (errno != EINTR)
                            throw ErrnoException(errno);
                    } else {
                        assert(static_cast<U>(read) <= toReadAtOnce);
                        leftToRead -= static_cast<U>(read);
                        if (leftToRead <= 0u)
                            break;
                        buf = ptrAdd(buf, read);
                    }""", """                    if (read < 0) {
                        if (errno == EINTR)
                            continue;
                        throw ErrnoException(errno);
                    }
                    if (read == 0)
                        throw FileSizeChangedException();
                    buf = ptrAdd(buf, read);
                    leftToRead -= static_cast<U>(read);
                    if (leftToRead == 0u)
                        break;""")]),
    ("rf-cb-inc", ["C01", "C02", "C03", "C11"], [(CB, """        std::lock_guard<MutexType> const guard(m_dataAvailableMutex);
        m_dataAvailable += size;
        m_dataAvailableCondition.notify_one();
        return m_dataAvailable;""", """        std::size_t r;
        {
            std::lock_guard<MutexType> const guard(m_dataAvailableMutex);
            r = (m_dataAvailable += size);
        }
        m_dataAvailableCondition.notify_one();
        return r;""")]),
    ("rf-cb-full", ["C01", "C02", "C03", "C11"], [(CB, """    bool full() const noexcept { return spaceAvailable() <= 0u; }""", """    bool full() const noexcept { return dataAvailable() == m_bufferSize; }""")]),
    ("rf-mq-empty", ["C09"], [(MQ, """        Node * const head = m_head.load(std::memory_order_consume);
        assert(head);
        Node * const next = head->next.load(std::memory_order_acquire);

        if (!next)
            return nullptr;

        head->data = std::move(next->data);
        m_head.store(next, std::memory_order_release);
        head->next.store(nullptr, std::memory_order_relaxed);
        return std::unique_ptr<Node>{head};""", """        std::unique_ptr<Node> r;
        auto & first = *m_head.load(std::memory_order_acquire);
        if (auto * const next = first.next.load(std::memory_order_acquire)) {
            first.data = std::move(next->data);
            first.next.store(nullptr, std::memory_order_relaxed);
            m_head.store(next, std::memory_order_release);
            r.reset(&first);
        }
        return r;""")]),
    ("rf-ts-unlock", ["C09"], [(TS, """        m_active.store(m_active.load(std::memory_order_relaxed) + 1u,
                       std::memory_order_release);""", """        m_active.fetch_add(1u, std::memory_order_release);""")]),
    ("rf-ts-lock", ["C09"], [(TS, """        while (ticket != m_active.load(std::memory_order_acquire))
            spinWait();""", """        for (;;) {
            if (m_active.load(std::memory_order_acquire) == ticket)
                return;
            spinWait();
        }""")]),
]
