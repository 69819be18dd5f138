E = "EventLoop.h"
X = "Posix.h"
D = "FileDescriptor.h"
B = ("C12", "C13")


def m(name, props, f, *e):
    return (name, tuple(props.split()), [(f, a, b) for a, b in e])


MUTANTS = [
    # C12
    m("fd-move-keeps", "C12", D, ("    { move.m_fd = -1; }", "    {}")),
    m("fd-assign-noclose", "C12", D, ("        if (&move != this) {\n            close();\n", "        if (&move != this) {\n")),
    m("fd-assign-self", "C12", D, ("if (&move != this) {", "if (valid() || move.valid()) {")),
    m("fd-assign-keeps", "C12", D, ("            move.m_fd = -1;\n", "")),
    m("fd-reset-noclose", "C12", D, ("            close();\n            m_fd = fd;\n        }\n    }", "            m_fd = fd;\n        }\n    }")),
    m("fd-reset-same", "C12", D, ("        if (m_fd != fd) {\n            close();\n            m_fd = fd;\n        }", "        close();\n        m_fd = fd;")),
    m("fd-release-keeps", "C12", D, ("        m_fd = -1;\n        return r;", "        return r;")),
    m("fd-close-keeps", "C12", D, ("            ::close(m_fd);\n            m_fd = -1;", "            ::close(m_fd);")),
    m("fd-close-zero", "C12", D, ("if (m_fd != -1) {", "if (m_fd > 0) {")),
    m("fd-close-loop", "C12", D, ("            ::close(m_fd);\n", "            while (::close(m_fd) != 0 && errno == EINTR) {}\n")),
    m("fd-dtor", "C12", D, ("{ close(); }", "{ if (m_fd > 2) close(); }")),
    m("fd-dup-inherit", "C12", D, ("F_DUPFD_CLOEXEC", "F_DUPFD")),
    m("fd-dup-same", "C12", D, ("                    nativeHandle(),\n                    F_DUPFD_CLOEXEC,\n                    0);",
                               "                    nativeHandle(),\n                    F_DUPFD_CLOEXEC,\n                    0) ? nativeHandle() : -1;")),
    m("el-pipe-inherit", "C12", E, ("O_CLOEXEC | O_NONBLOCK", "O_NONBLOCK")),
    m("el-epoll-inherit", "C12", E, ("::epoll_create1(EPOLL_CLOEXEC)", "::epoll_create1(0)")),
    m("el-dtor-read", "C12", E, ("            writeEndClose();\n            ::close(readEnd);", "            writeEndClose();")),
    m("el-dtor-epoll", "C12", E, ("~Epoll() noexcept { ::close(fd); }", "~Epoll() noexcept {}")),
    m("el-dtor-cond", "C12", E, ("            writeEndClose();\n            ::close(readEnd);",
                                "            if (writeEnd != readEnd) {\n                writeEndClose();\n                ::close(readEnd);\n            }")),
    m("el-close-check", "C12", E, ("            auto const fd = writeEnd.exchange(readEnd);\n            if (fd != readEnd)\n                ::close(fd);",
                                  "            int const fd = writeEnd;\n            if (fd != readEnd) {\n                writeEnd = readEnd;\n                ::close(fd);\n            }")),
    m("el-close-always", "C12", E, ("            if (fd != readEnd)\n                ::close(fd);", "            ::close(fd);")),
    m("el-close-wrong", "C12", E, ("            if (fd != readEnd)\n                ::close(fd);", "            if (fd != readEnd)\n                ::close(readEnd);")),
    m("el-remove-close", "C12", E, ("                return false;\n            throwNested(ErrnoException(errno), EpollCtlException());\n        }\n        return true;",
                                   "                return false;\n            throwNested(ErrnoException(errno), EpollCtlException());\n        }\n        ::close(fd);\n        return true;")),
    m("el-run-closes", "C12", E, ("                        return;\n                    assert(signalEvent", "                        { ::close(m_closePipe.readEnd); return; }\n                    assert(signalEvent")),
    # C13
    m("px-loop-eagain", "C13", X, ("if (errno != EAGAIN && errno != EINTR)", "if (errno != EINTR)")),
    m("px-loop-all", "C13", X, ("if (errno != EAGAIN && errno != EINTR)", "if (errno != EAGAIN && errno != EINTR && errno != EBUSY)")),
    m("px-loop-once", "C13", X, ("        if (errno != EAGAIN && errno != EINTR)\n            throwNested(ErrnoException(errno), E());",
                                "        if (errno != EAGAIN && errno != EINTR)\n            throwNested(ErrnoException(errno), E());\n        if (errno == EAGAIN)\n            return r;")),
    m("px-loop-errno", "C13", X, ("throwNested(ErrnoException(errno), E());", "throwNested(ErrnoException(errno == ENOSYS ? EINVAL : errno), E());")),
    m("px-flags-lost", "C13", X, ("                            GET) | flags);", "                            GET) ^ flags);")),
    m("px-flags-set", "C13", X, ("                            GET) | flags);", "                            GET) & flags ? 0 : flags);")),
    m("px-flags-cmd", "C13", X, ("Detail::fcntlAddFlags<F_GETFL, F_SETFL,", "Detail::fcntlAddFlags<F_GETFD, F_SETFL,")),
    m("px-flags-ok", "C13", X, ("[](int const r) { return r != -1; }", "[](int const r) { return r > 0; }")),
    m("ex-errno", "C13", "Exception.h", ("        , m_errno(e)\n", "        , m_errno(e < 0 ? -e : e)\n")),
    m("el-mod-oneshot", "C13", E, ("epollCtl<EPOLL_CTL_MOD>(fd, events | EPOLLONESHOT, &handler);", "epollCtl<EPOLL_CTL_MOD>(fd, events, &handler);")),
    m("el-disable-add", "C13", E, ("disabledInsertOrModify<void, &EventLoop::epollCtl<EPOLL_CTL_MOD> >(fd);", "disabledInsertOrModify<void, &EventLoop::epollCtl<EPOLL_CTL_ADD> >(fd);")),
    m("el-disabled-null", "C13", E, ("EPOLLONESHOT, &nullHandler());", "EPOLLONESHOT, nullptr);")),
    m("el-insert-eexist", "C13", E, ("            if (errno == EEXIST)\n                return false;\n", "            if (errno == EEXIST)\n                return true;\n")),
    m("el-insert-break", "C13", E, ("            if (errno == EEXIST)\n                return false;\n            if (errno != EAGAIN && errno != EINTR)",
                                   "            if (errno == EEXIST || errno == EPERM)\n                return false;\n            if (errno != EAGAIN && errno != EINTR)")),
    m("el-remove-noent", "C13", E, ("            if (errno == ENOENT)\n                return false;\n", "            if (errno == ENOENT || errno == EBADF)\n                return false;\n")),
    m("el-remove-retry", "C13", E, ("            if (errno == EAGAIN || errno == EINTR)\n                continue;\n            if (errno == ENOENT)", "            if (errno == ENOENT || errno == EAGAIN)")),
    m("el-iom-ret", "C13", E, ("                    &e);\n        return false;", "                    &e);\n        return true;")),
    m("el-iom-eexist", "C13", E, ("            if (errno == EEXIST)\n                break;\n", "            if (errno == EEXIST)\n                return false;\n")),
    m("el-iom-mod-events", "C13", E, ("        syscallLoop<EpollCtlException>(\n                    ::epoll_ctl,\n                    [](int const r) noexcept { return r == 0; },\n                    m_epoll.fd,\n                    EPOLL_CTL_MOD,",
                                     "        e.events = events & ALL_INPUT_EVENTS;\n        syscallLoop<EpollCtlException>(\n                    ::epoll_ctl,\n                    [](int const r) noexcept { return r == 0; },\n                    m_epoll.fd,\n                    EPOLL_CTL_MOD,")),
    m("el-run-eagain", "C13", E, ("                if (errno == EINTR || errno == EAGAIN)\n                    continue;\n", "                if (errno == EAGAIN)\n                    continue;\n")),
    m("el-run-ebadf", "C13", E, ("                if (errno == EINTR || errno == EAGAIN)\n                    continue;\n", "                if (errno == EINTR || errno == EAGAIN || errno == EBADF)\n                    continue;\n")),
    m("el-run-max", "C13", E, ("static_cast<int>(DEFAULT_MAX_EVENTS),\n", "static_cast<int>(sizeof(events)),\n")),
    m("el-run-drop-rest", "C13", E, ("                    while (++it < eventsEnd) {\n                        assert(it->data.ptr != nullptr);\n                        handleEvent(*it);\n                    }\n",
                                    "")),
    m("el-run-skip-one", "C13", E, ("while (++it < eventsEnd) {", "while (++it < eventsEnd - 1) {")),
    m("el-run-rest-off", "C13", E, ("                    while (++it < eventsEnd) {", "                    ++it;\n                    while (++it < eventsEnd) {")),
    m("el-run-stop-mask", "C13", E, ("if (signalEvent.events & ALL_FATAL_EVENTS)", "if (signalEvent.events & ALL_ERROR_EVENTS)")),
    m("el-run-stop-in", "C13", E, ("if (signalEvent.events & ALL_FATAL_EVENTS)", "if (signalEvent.events & (ALL_FATAL_EVENTS | EPOLLPRI | EPOLLIN))")),
    m("el-run-stop-first", "C13", E, ("                    auto const & signalEvent = *it;\n", "                    auto const & signalEvent = *it;\n                    if (signalEvent.events & ALL_ERROR_EVENTS)\n                        return;\n")),
    m("el-run-read0", "C13", E, ("                            if (rd == 0) // HUP or EOF\n                                return; // Stop signalled", "                            if (rd == 0)\n                                goto Sharemind_EventLoop_run_continue;")),
    m("el-run-event", "C13", E, ("->handleEvents(event.events); }", "->handleEvents(event.events & ~ALL_HUP_EVENTS); }")),
    m("el-run-count", "C13", E, ("    Sharemind_EventLoop_run_continue:\n            loopIterationFinish();", "            loopIterationFinish();\n    Sharemind_EventLoop_run_continue:;")),
    m("el-run-relaxed", "C13", E, ("m_loopCounter.fetch_add(1u, std::memory_order_release)", "m_loopCounter.fetch_add(1u, std::memory_order_relaxed)")),
    m("el-run-nolock", "C13", E, ("    void run() {\n        std::lock_guard<std::mutex> const guard{m_stopMutex};\n", "    void run() {\n")),
    m("el-run-readsz", "C13", E, ("sizeof(::epoll_event) * DEFAULT_MAX_EVENTS;", "2u * sizeof(::epoll_event) * DEFAULT_MAX_EVENTS;")),
    m("el-stop-async", "C13", E, ("        // Block until run() exits:\n        std::lock_guard<std::mutex> const guard{m_stopMutex};\n", "")),
    m("el-spin-relaxed", "C13", E, ("        while (m_loopCounter.load(std::memory_order_acquire) == start) {", "        while (m_loopCounter.load(std::memory_order_relaxed) == start) {")),
    m("el-spin-keep", "C13", E, ("        if (m_stopMutex.try_lock()) {\n            m_stopMutex.unlock();\n            return;\n        }\n        if (m_loop", "        if (m_stopMutex.try_lock())\n            return;\n        if (m_loop")),
    m("el-spin-errs", "C13", E, ("                && errno != EIO\n", "                && errno != EIO\n")) if False else
    m("el-spin-return", "C13", E, ("                break; // Stopping, but the last iteration might still be running", "                return;")),
    m("el-spin-bit", "C13", E, ("        while (m_loopCounter.load(std::memory_order_acquire) == start) {", "        while (m_loopCounter.load(std::memory_order_acquire) < start) {")),
    m("el-ctor-hup", "C13", E, ("epollCtl<EPOLL_CTL_ADD>(m_closePipe.readEnd, ALL_INPUT_EVENTS, nullptr);", "epollCtl<EPOLL_CTL_ADD>(m_closePipe.readEnd, INPUT_FATAL_EVENTS, nullptr);")),
    m("el-ctor-oneshot", "C13", E, ("epollCtl<EPOLL_CTL_ADD>(m_closePipe.readEnd, ALL_INPUT_EVENTS, nullptr);", "epollCtl<EPOLL_CTL_ADD>(m_closePipe.readEnd, ALL_INPUT_EVENTS | EPOLLONESHOT, nullptr);")),
    m("el-pipe-block", "C13", E, ("O_CLOEXEC | O_NONBLOCK", "O_CLOEXEC")),
]

EQUIV = [
    m("fd-e-swap", "C12 C13", D, ("        if (&move != this) {\n            close();\n            m_fd = move.m_fd;\n            move.m_fd = -1;\n        }\n", "        if (&move != this)\n            reset(move.release());\n")) if False else
    m("fd-e-release", "C12 C13", D, ("        if (&move != this) {\n            close();\n            m_fd = move.m_fd;\n            move.m_fd = -1;\n        }\n",
                                    "        if (&move != this) {\n            int const n = move.release();\n            close();\n            m_fd = n;\n        }\n")),
    m("fd-e-ctor", "C12 C13", D, ("        : m_fd(move.m_fd)\n    { move.m_fd = -1; }", "        : m_fd(move.release())\n    {}")),
    m("fd-e-close", "C12 C13", D, ("        if (m_fd != -1) {\n            ::close(m_fd);\n            m_fd = -1;\n        }", "        int const old = release();\n        if (old == -1)\n            return;\n        ::close(old);")),
    m("fd-e-reset", "C12 C13", D, ("        if (m_fd != fd) {\n            close();\n            m_fd = fd;\n        }", "        if (m_fd == fd)\n            return;\n        close();\n        m_fd = fd;")),
    m("px-e-while", "C12 C13", X, ("""    for (;;) {
        auto r = f(std::forward<Args>(args)...);
        if (okPred(r))
            return r;
        if (errno != EAGAIN && errno != EINTR)
            throwNested(ErrnoException(errno), E());
    }""", """    auto r = f(std::forward<Args>(args)...);
    while (!okPred(r)) {
        auto const e = errno;
        if (!(e == EAGAIN || e == EINTR))
            throwNested(ErrnoException(e), E());
        r = f(std::forward<Args>(args)...);
    }
    return r;""")),
    m("el-e-for", "C12 C13", E, ("            for (auto const * it = events; it < eventsEnd; ++it) {", "            for (auto const * it = events; it != eventsEnd; ++it) {")),
    m("el-e-switch", "C12 C13", E, ("                if (errno == EINTR || errno == EAGAIN)\n                    continue;\n                throwNested(ErrnoException(errno), EpollWaitException());",
                                   "                auto const e = errno;\n                if (e != EINTR && e != EAGAIN)\n                    throwNested(ErrnoException(e), EpollWaitException());\n                continue;")),
    m("el-e-index", "C12 C13", E, ("                    while (++it < eventsEnd) {\n                        assert(it->data.ptr != nullptr);\n                        handleEvent(*it);\n                    }",
                                  "                    ++it;\n                    for (; it != eventsEnd; ++it)\n                        handleEvent(*it);")),
    m("el-e-flush", "C12 C13", E, ("""                        if (rd <= 0) {
                            if (rd == 0) // HUP or EOF
                                return; // Stop signalled
                            assert(rd == -1);
                            if (errno == EINTR)
                                continue;
                            if (errno != EAGAIN)
                                return; // Error signalled
                            goto Sharemind_EventLoop_run_continue; // Flushed
                        }
                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
                        if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
                            goto Sharemind_EventLoop_run_continue;""", """                        if (rd == 0)
                            return;
                        if (rd > 0) {
                            if (static_cast<std::size_t>(rd) == DISCARD_SIZE)
                                continue;
                        } else {
                            if (errno == EINTR)
                                continue;
                            if (errno != EAGAIN)
                                return;
                        }
                        goto Sharemind_EventLoop_run_continue;""")),
    m("el-e-remove", "C12 C13", E, ("""        while (::epoll_ctl(m_epoll.fd, EPOLL_CTL_DEL, fd, nullptr) != 0) {
            if (errno == EAGAIN || errno == EINTR)
                continue;
            if (errno == ENOENT)
                return false;
            throwNested(ErrnoException(errno), EpollCtlException());
        }
        return true;""", """        for (;;) {
            if (::epoll_ctl(m_epoll.fd, EPOLL_CTL_DEL, fd, nullptr) == 0)
                return true;
            switch (errno) {
            case EAGAIN: case EINTR: break;
            case ENOENT: return false;
            default: throwNested(ErrnoException(errno), EpollCtlException());
            }
        }""") if False else ("            if (errno == ENOENT)\n                return false;\n            throwNested(ErrnoException(errno), EpollCtlException());", "            if (errno != ENOENT)\n                throwNested(ErrnoException(errno), EpollCtlException());\n            return false;")),
    m("el-e-iom", "C12 C13", E, ("""            if (r == 0)
                return true;
            assert(r == -1);
            if (errno == EEXIST)
                break;
            if (errno != EAGAIN && errno != EINTR)
                throwNested(ErrnoException(errno), EpollCtlException());""", """            if (r != 0) {
                if (errno == EEXIST)
                    break;
                if (errno == EAGAIN || errno == EINTR)
                    continue;
                throwNested(ErrnoException(errno), EpollCtlException());
            } else {
                return true;
            }""")),
    m("el-e-stop", "C12 C13", E, ("        std::lock_guard<std::mutex> const guard{m_stopMutex};\n    }\n\n    void run() {\n        std::lock_guard<std::mutex> const guard{m_stopMutex};",
                                 "        m_stopMutex.lock();\n        m_stopMutex.unlock();\n    }\n\n    void run() {\n        std::unique_lock<std::mutex> const guard{m_stopMutex};")),
    m("el-e-spin", "C12 C13", E, ("        while (m_loopCounter.load(std::memory_order_acquire) == start) {", "        for (;;) {\n            if (m_loopCounter.load(std::memory_order_acquire) != start)\n                break;")),
    m("el-e-boolstop", "C12 C13", E, ("            auto const eventsEnd = events + numEvents;", "            int left = numEvents;\n            (void) left;\n            auto const eventsEnd = events + numEvents;")),
    m("el-e-countdown", "C12 C13", E, ("m_loopCounter.fetch_add(1u, std::memory_order_release)", "m_loopCounter.fetch_add(1u, std::memory_order_acq_rel)")),
]
