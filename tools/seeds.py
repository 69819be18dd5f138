DEMO_SH = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap '/bin/rm -rf "$tmp"' EXIT
mkdir "$tmp/inc" && ln -s "$PWD/src" "$tmp/inc/sharemind" || exit 99
g++ -std=c++14 -g -O1 -w @FLAGS@ -I"$tmp/inc" -I"$here/stubs" "$here/demo.cpp" -o "$tmp/demo" -pthread -ldl || exit 98
@RUN@ timeout 60 "$tmp/demo"
'''
TSAN = dict(flags="-fsanitize=thread", run="TSAN_OPTIONS='exitcode=66 halt_on_error=1' setarch -R")
SEEDS = []


def S(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


S("resmap-revived", "C03", [("SharedResourceMap.h",
"""                            obj.reset();
                            c.m_data.erase(it);
                            c.m_cond.notify_all();
""", """                            obj.reset();
                            auto const last = it->second.use_count() <= 1;
                            c.m_data.erase(it);
                            if (!last)
                                c.m_cond.notify_all();
""")], r'''
#include <sharemind/SharedResourceMap.h>
#include <atomic>
#include <thread>
#include <unistd.h>
using M = sharemind::SharedResourceMap<int, int>;
int main() {
    M m;
    auto p = m.getResource(1);
    std::atomic<bool> done{false};
    std::thread t([&]{ m.waitForEmpty(); done = true; });
    usleep(300000);
    p.reset();
    for (int i = 0; i < 50 && !done; ++i) usleep(100000);
    if (!done) _exit(1);
    t.join();
    return 0;
}
''', "a thread already blocked in waitForEmpty() when the last resource is released", "waitForEmpty() never returns")

S("latch-notify-unlocked", "C06", [("Latch.h",
"""        std::lock_guard<std::mutex> const guard(m_mutex);
        assert(m_counter > 0u);
        bool const r = !--m_counter;
        if (r)
""", """        std::unique_lock<std::mutex> lock(m_mutex);
        assert(m_counter > 0u);
        bool const r = !--m_counter;
        lock.unlock();
        if (r)
""")], r'''
#include <dlfcn.h>
#include <pthread.h>
#include <new>
#include <cstdlib>
#include <unistd.h>
#include <sharemind/Latch.h>
// A waiter which returns and destroys the latch may run whenever its mutex is free.
static pthread_mutex_t * last;
static thread_local bool watch;
extern "C" int pthread_cond_broadcast(pthread_cond_t * c) {
    static auto const real = (int (*)(pthread_cond_t *)) dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    if (watch && last) {
        if (pthread_mutex_trylock(last) == 0) {
            static char const msg[] = "notified without the lock\n";
            (void) !write(2, msg, sizeof(msg) - 1);
            _exit(1);
        }
    }
    return real(c);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) {
    static auto const real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (watch) last = m;
    return real(m);
}
int main() {
    sharemind::Latch<> l(2u);
    watch = true;
    l.countDown();
    l.countDown();
    return 0;
}
''', "a waiter which runs between the unlock and the notification and destroys the latch",
  "the last countDown() uses a latch which the waiter has already destroyed")

S("pool-ctor-leak", "C05", [("SimpleThreadPool.h", """        m_threads.reserve(numThreads);
        try {
            for (unsigned i = 0u; i < numThreads; i++)
                m_threads.emplace_back(&SimpleThreadPool::workerThread, this);
        } catch (...) {
            stopAndJoin();
            throw;
        }
""", """        m_threads.reserve(numThreads);
        try {
            for (unsigned i = 0u; i < numThreads; i++)
                m_threads.emplace_back(&SimpleThreadPool::workerThread, this);
        } catch (...) {
            notifyStop();
            if (m_threads.size() <= 1u)
                throw;
            join();
            throw;
        }
""")], r'''
#include <cerrno>
#include <dlfcn.h>
#include <pthread.h>
static int created = 0;
extern "C" int pthread_create(pthread_t * t, pthread_attr_t const * a, void * (*f)(void *), void * p) {
    static auto const real = (int (*)(pthread_t *, pthread_attr_t const *, void * (*)(void *), void *))
        dlsym(RTLD_NEXT, "pthread_create");
    if (created++ >= 1) return EAGAIN;
    return real(t, a, f, p);
}
#include <sharemind/SimpleThreadPool.h>
#include <system_error>
int main() {
    try {
        sharemind::SimpleThreadPool p(2u);
    } catch (std::system_error const &) { return 0; }
    return 1;
}
''', "creation of the second thread fails", "the program terminates as a joinable thread is destroyed", stubs=True)

S("ready-unlocked", "C01", [("Future.h", """        std::lock_guard<std::mutex> const guard(mutex); \\
        return isSet; \\
    } \\
""", """        return isSet; \\
    } \\
""")], r'''
#include <sharemind/Future.h>
#include <thread>
#include <unistd.h>
int main() {
    sharemind::Promise<int> p;
    auto f = p.takeFuture();
    std::thread t([&]{ usleep(20000); p.setValue(42); });
    bool b = false;
    for (int i = 0; i < 200 && !(b = f.isReady()); ++i) usleep(1000);
    int v = f.takeValue();
    t.join();
    return v == 42 && b ? 0 : 1;
}
''', "another thread fulfilling the promise while isReady() is called", "a data race on the result flag of a future", **TSAN)


S("endian-signed16", "C14", [("EndianMacros.h", "SHAREMIND_ENDIAN_INT_FUN(bigEndianToHost, int32_t, be32toh)",
                              "SHAREMIND_ENDIAN_INT_FUN(bigEndianToHost, int32_t, be16toh)")], r'''
#include <sharemind/EndianMacros.h>
int main() {
    std::int32_t v = 0x01020304;
    return sharemind::bigEndianToHost(sharemind::hostToBigEndian(v)) == v ? 0 : 1;
}
''', "a signed 32-bit value read from big-endian data", "bigEndianToHost(int32_t) drops half of the bytes", stubs=True)

S("fd-self-assign", "C12", [("FileDescriptor.h", "if (&move != this) {", "if (valid() || move.valid()) {")], r'''
#include <sharemind/FileDescriptor.h>
#include <fcntl.h>
#include <unistd.h>
int main() {
    sharemind::FileDescriptor a(::open("/dev/null", O_RDONLY));
    int const n = a.nativeHandle();
    auto & r = a;
    a = std::move(r);
    return a.nativeHandle() == n && ::fcntl(n, F_GETFD) != -1 ? 0 : 1;
}
''', "a descriptor object moved onto itself", "the descriptor is closed although the object still should own it")

S("eventloop-drop", "C13", [("EventLoop.h", """                    while (++it < eventsEnd) {
                        assert(it->data.ptr != nullptr);
                        handleEvent(*it);
                    }
""", "")], r'''
#include <sharemind/EventLoop.h>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/epoll.h>
using namespace sharemind;
int main() {
    for (int round = 0; round < 20; ++round) {
        EventLoop l;
        int p[2], q[2];
        if (::pipe(p) || ::pipe(q)) return 99;
        std::atomic<bool> in{false}, go{false}, second{false};
        auto h1 = EventLoop::createHandler([&](uint32_t) noexcept { in = true; while (!go) usleep(100); });
        auto h2 = EventLoop::createHandler([&](uint32_t) noexcept { second = true; });
        l.insert(p[0], EPOLLIN, *h1);
        l.insert(q[0], EPOLLIN, *h2);
        std::thread t([&]{ l.run(); });
        ::write(p[1], "x", 1);
        while (!in) usleep(100);
        std::thread s([&]{ l.stop(); });
        usleep(20000);              // the pipe is signalled before the second event
        ::write(q[1], "x", 1);
        go = true;
        s.join();
        t.join();
        ::close(p[0]); ::close(p[1]); ::close(q[0]); ::close(q[1]);
        if (!second) return 1;
    }
    return 0;
}
''', "an event reported together with the stop signal, after it", "the event was taken from the kernel (one-shot) but its handler is never called")

S("eventloop-ebadf", "C13", [("EventLoop.h", """            if (errno == ENOENT)
                return false;
""", """            if (errno == ENOENT || errno == EBADF)
                return false;
""")], r'''
#include <sharemind/EventLoop.h>
#include <unistd.h>
using namespace sharemind;
int main() {
    EventLoop l;
    int p[2];
    if (::pipe(p)) return 99;
    if (l.remove(p[0])) return 1;       // not present: false
    ::close(p[0]);
    try { l.remove(p[0]); } catch (std::exception const &) { return 0; }
    return 1;
}
''', "removing a descriptor which has been closed already", "the error is reported as 'not present'")

S("future-swallow", "C07", [("Future.h", """            m_promise.setValue(m_function(std::forward<Args>(args)...));
        } catch (...) {
            m_promise.setException(std::current_exception());
        }
""", """            m_promise.setValue(m_function(std::forward<Args>(args)...));
        } catch (std::exception const &) {
            m_promise.setException(std::current_exception());
        } catch (...) {}
""")], r'''
#include <sharemind/Future.h>
#include <chrono>
using namespace sharemind;
int main() {
    PackagedTask<int(int)> t([](int i) -> int { if (i) throw i; return 0; });
    auto f = t.takeFuture();
    t(7);
    if (!f.waitFor(std::chrono::milliseconds(200))) return 1;
    try { f.takeValue(); } catch (int i) { return i == 7 ? 0 : 2; } catch (...) { return 3; }
    return 4;
}
''', "a packaged task whose function throws something not derived from std::exception", "the future never becomes ready")

S("future-then-window", "C08", [("Future.h", """        if (auto const cont = \\
                [this](ContinuationPtr c) noexcept -> ContinuationPtr { \\
                    std::lock_guard<std::mutex> const guard(mutex); \\
                    assert(!m_continuation); \\
                    if (isSet) \\
                        return c; \\
                    m_continuation""", """        if (ready()) { continuation->run(); return; } \\
        if (auto const cont = \\
                [this](ContinuationPtr c) noexcept -> ContinuationPtr { \\
                    std::lock_guard<std::mutex> const guard(mutex); \\
                    assert(!m_continuation); \\
                    m_continuation""")], r'''
#include <dlfcn.h>
#include <pthread.h>
#include <new>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sharemind/Future.h>
static std::atomic<int> phase{0};
static thread_local bool mine = false;
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) noexcept {
    static auto const real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int const r = real(m);
    if (mine) {     // after each critical section of then(): let the other thread fulfil the promise
        mine = false;
        phase = 1;
        for (int i = 0; i < 2000 && phase != 2; ++i) usleep(100);
    }
    return r;
}
int main() {
    sharemind::Promise<int> p;
    auto f = p.takeFuture();
    std::atomic<int> ran{0};
    std::thread t([&]{ while (phase != 1) usleep(100); p.setValue(1); phase = 2; });
    mine = true;
    auto g = f.then([&](sharemind::Future<int> x) noexcept { ++ran; return x.takeValue(); });
    mine = false;
    t.join();
    return ran == 1 ? 0 : 1;
}
''', "the promise being fulfilled by another thread between two critical sections of then()", "the continuation is never run")


S("ticket-two-step", "C09", [("TicketSpinLock.h", "auto const ticket = m_next.fetch_add(1u, std::memory_order_relaxed);",
 "auto const ticket = m_next.load(std::memory_order_relaxed); m_next.store(ticket + 1u, std::memory_order_relaxed);")], r'''
#include <sharemind/TicketSpinLock.h>
#include <atomic>
#include <thread>
#include <vector>
#include <unistd.h>
int main() {
    sharemind::TicketSpinLock l;
    std::atomic<int> inside{0};
    std::atomic<bool> bad{false};
    std::vector<std::thread> ts;
    std::thread([&]{ sleep(30); _exit(1); }).detach();
    for (int t = 0; t < 4; ++t)
        ts.emplace_back([&]{
            for (int i = 0; i < 20000 && !bad; ++i) {
                l.lock();
                if (inside.fetch_add(1) != 0) bad = true;
                inside.fetch_sub(1);
                l.unlock();
            }
            if (bad) _exit(1);
        });
    for (auto & t : ts) t.join();
    _exit(bad ? 1 : 0);
}
''', "two threads drawing a ticket at the same time", "both get the same ticket and enter the critical section together", stubs=True)


S("idpool-throw-locked", "C02", [("IdentifierPool.h", """            std::lock_guard<std::mutex> const guard(m_mutex);
            T tryNext = m_tryNextId;""", """            m_mutex.lock();
            T tryNext = m_tryNextId;"""), ("IdentifierPool.h", """            m_tryNextId = tryNext + 1u;
            return tryNext;""", """            m_tryNextId = tryNext + 1u;
            m_mutex.unlock();
            return tryNext;""")], r'''
#include <sharemind/IdentifierPool.h>
#include <atomic>
#include <cstdint>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace sharemind;
int main() {
    using P = IdentifierPool<std::uint8_t>;
    P p;
    std::vector<P::IdHolder> v;
    bool thrown = false;
    try { for (;;) v.push_back(p.reserve()); } catch (P::ReserveException const &) { thrown = true; }
    std::atomic<bool> done{false};
    std::thread([&]{ v.pop_back(); v.push_back(p.reserve()); done = true; }).detach();
    for (int i = 0; i < 50 && !done; ++i) usleep(100000);
    _exit(thrown && done ? 0 : 1);
}
''', "an exhausted pool of identifiers, used again afterwards", "the pool stays locked after the exception")

S("timeouts-batch-locked", "C04", [("TimeoutsThread.h", """                    runTask = m_tasks.takeFirstTask();
                } // Release lock

                // Execute expired task:
                assert(runTask);
                auto & runTaskRef = *runTask.get();
                runTaskRef(std::move(runTask));
""", """                    runTask = m_tasks.takeFirstTask();

                    // Execute expired task:
                    assert(runTask);
                    if (m_tasks.empty()
                        || Clock::now() < m_tasks.begin()->m_timePoint)
                        lock.unlock(); // Nothing else to do, so let others in
                    auto & runTaskRef = *runTask.get();
                    runTaskRef(std::move(runTask));
                }
""")], r'''
#include <sharemind/TimeoutsThread.h>
#include <atomic>
#include <chrono>
#include <unistd.h>
using namespace sharemind;
int main() {
    auto & t = *new TimeoutsThread();
    std::atomic<int> ran{0};
    auto const when = std::chrono::steady_clock::now() + std::chrono::milliseconds(100);
    auto const f = [&]() noexcept {
        t.addTimeoutTask(std::chrono::milliseconds(1), TimeoutsThread::createOneShotTask([&]() noexcept { ++ran; }));
    };
    t.addTask(when, TimeoutsThread::createOneShotTask(f));
    t.addTask(when, TimeoutsThread::createOneShotTask(f));
    for (int i = 0; i < 50 && ran != 2; ++i) usleep(100000);
    _exit(ran == 2 ? 0 : 1);
}
''', "a task that adds a task while another one is due already", "the task runs under the lock and deadlocks")

S("timeouts-order", "C10", [("TimeoutsThread.h", "iterator insert(reference t) noexcept { return m_data.insert(t); }",
 "iterator insert(reference t) noexcept\n        { return m_data.insert(m_data.begin(), t); }")], r'''
#include <sharemind/TimeoutsThread.h>
#include <atomic>
#include <chrono>
#include <unistd.h>
using namespace sharemind;
int main() {
    TimeoutsThread t;
    std::atomic<int> first{0}, n{0};
    auto const when = std::chrono::steady_clock::now() + std::chrono::milliseconds(200);
    for (int k = 1; k <= 3; ++k)
        t.addTask(when, TimeoutsThread::createOneShotTask([&, k]() noexcept { int e = 0; first.compare_exchange_strong(e, k); ++n; }));
    for (int i = 0; i < 50 && n != 3; ++i) usleep(100000);
    return first == 1 ? 0 : 1;
}
''', "several tasks with exactly the same time", "tasks of the same time run in the reverse order")


S("strand-nested-stop", "C10", [("Strand.h", """            CallStack<CallStackRecursionIndicator>::Context context(this);
            {
                // Retrieve first task (or return if stopping):
                ThreadPool::Task task;
""", """            {
                CallStack<CallStackRecursionIndicator>::Context context(this);
            }
            {
                // Retrieve first task (or return if stopping):
                ThreadPool::Task task;
""")], r'''
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/Strand.h>
#include <cstdlib>
#include <unistd.h>
using namespace sharemind;
using TP = ThreadPool;
int main() {
    alarm(20);
    auto const pool(std::make_shared<ParticipatoryThreadPool>());
    Strand a(pool), b(pool);
    bool done = false;
    a.submit(TP::createSimpleTask([&]() noexcept {
        // helps out in the pool, and so runs a task of another strand ...
        pool->participateOnce();
    }));
    // ... which stops the first one:
    b.submit(TP::createSimpleTask([&]() noexcept { a.stopAndMaybeJoin(); done = true; }));
    pool->participateOnce();
    if (!done)
        return 1;
    std::_Exit(0);
}
''', "a strand which is stopped (stopAndMaybeJoin) while one of its own tasks runs, directly or in a nested task",
  "stopping a strand from within one of its own tasks waits for itself for ever", stubs=True)


S("circbuf-space-ube", "C11", [("CircBufferSCSP.h", """        std::size_t const available = spaceAvailable();
        assert(available <= m_bufferSize);
        availableUntilBufferEnd = std::min(available,
                                           m_bufferSize - m_writeOffset);""", """        std::size_t const available = spaceAvailable();
        assert(available <= m_bufferSize);
        availableUntilBufferEnd = std::min(available,
                                           m_bufferSize - m_readOffset);""")], r'''
#include <sharemind/CircBufferSCSP.h>
#include <cstdio>
int main() {
    sharemind::CircBufferSCSP<char, sharemind::CircBufferNoLocking> b(8u);
    char buf[8] = {};
    b.write("aaaaaa", 6u);
    b.read(buf, 4u);
    // 2 unread, write offset 6, read offset 4: 6 free, 2 of them before the end
    std::size_t ube = 0u;
    std::size_t const n = b.spaceAvailable(ube);
    if (n != 6u || ube != 2u) { std::printf("free %zu, until end %zu\n", n, ube); return 1; }
    return 0;
}
''', "the two-result form of spaceAvailable() called while unread elements keep the read offset behind the write offset",
  "the free space announced up to the end of the buffer reaches past the end")

S("idpool-exhausted-early", "C18", [("IdentifierPool.h",
"""                if (++tryNext == oldTryNext)
""", """                if (++tryNext == T(0u))
""")], r'''
#include <sharemind/IdentifierPool.h>
#include <vector>
using P = sharemind::IdentifierPool<unsigned char>;
int main() {
    P p;
    std::vector<P::IdHolder> v;
    for (int i = 0; i < 256; ++i) v.emplace_back(p.reserve());
    try { p.reserve(); return 1; } catch (P::ReserveException const &) {}
    v[7].release();                     // 0 is next, and 7 is free
    auto a = p.reserve();
    if (a.id() != 7) return 2;
    v[3].release();                     // 8 is next: 3 is only reached by wrapping around
    auto b = p.reserve();
    return b.id() == 3 ? 0 : 3;
}
''', "a pool which has handed out its last number and whose free numbers lie below the next one to be tried",
  "an identifier can not be reserved although the pool is not exhausted")

S("resmap-key-moved", "C18", [("SharedResourceMap.h",
"""                        typename Map_::value_type{key, {}});
            assert(rp.second);
""", """                        std::forward<K>(key), nullptr);
            assert(rp.second);
""")], r"""
#include <sharemind/SharedResourceMap.h>
#include <string>
using M = sharemind::SharedResourceMap<std::string, int>;
int main() {
    M m;
    auto p = m.getResource(std::string("a key too long to be stored in place, so that it is moved"));
    if (m.size() != 1) return 1;
    p.reset();
    return m.empty() ? 0 : 2;
}
""", "a key passed as an rvalue of a class whose moved-from objects differ",
  "the entry remembers an empty key, so that its deleter does not find the entry and it is never removed")

S("netmsg-bytes-wrap", "C15", [("NetworkMessage.h",
"""    if (this->size - m_offset < size)
        return false;

    std::memcpy(buffer""", """    if (this->size < m_offset + size)
        return false;

    std::memcpy(buffer""")], r'''
#include <sharemind/NetworkMessage.h>
#include <cstdint>
int main() {
    char const text[] = "0123456789";
    sharemind::IncomingNetworkMessage m(text, sizeof(text));
    char c;
    if (!m.readBytes(&c, 1u) || c != '0') return 1;
    static char buffer[64];
    if (m.readBytes(buffer, SIZE_MAX)) return 2;    // a length from a hostile peer
    return m.readBytes(&c, 1u) && c == '1' ? 0 : 3;
}
''', "a message which has been read from, and then a length so large that the sum with the position wraps around",
  "bytes beyond the end of the message are read", stubs=True)

S("netmsg-string-bound", "C15", [("NetworkMessage.h",
"""    if (length > this->size - m_offset) {
        m_offset = rollbackOffset;
""", """    if (length > this->size - rollbackOffset) {
        m_offset = rollbackOffset;
""")], r'''
#include <sharemind/NetworkMessage.h>
#include <cstdint>
#include <string>
int main() {
    for (unsigned length = 0u; length <= 24u; ++length) {
        unsigned char text[16] = {};
        std::uint64_t const n = length;
        sharemind::OutgoingNetworkMessage o;
        o.writeSize(n);
        std::string const s(static_cast<char const *>(o.getData()), o.getSize());
        std::string const whole = s + std::string(12u, 'x');
        // only 12 characters follow the length
        sharemind::IncomingNetworkMessage m(whole.data(), whole.size());
        std::string out;
        bool const r = m.read(out);
        if (r != (length <= 12u)) return 1;
        if (r && out != std::string(length, 'x')) return 2;
        (void) text;
    }
    return 0;
}
''', "a string whose announced length exceeds what follows by at most the size of the length itself",
  "up to eight bytes beyond the end of the message become part of the string", stubs=True)

S("stringview-clipped-wrap", "C16", [("StringView.h",
"""        if ((l > m_size) || (r > m_size - l))
""", """        if (l + r > m_size)
""")], r'''
#include <sharemind/StringView.h>
#include <stdexcept>
int main() {
    sharemind::StringView const v("abcdef", 6u);
    if (v.clipped(1u, 2u).size() != 3u) return 1;
    try { v.clipped(7u, static_cast<std::size_t>(-3)); return 2; } catch (std::out_of_range const &) {}
    return 0;
}
''', "two lengths whose sum wraps around", "a part of the text is returned which lies outside of it")

S("stringview-lastof-end", "C16", [("StringView.h",
"""            for (SizeType i = std::min(s - 1u, pos) + 1u; i--;)
                if (Traits::find(str, count, m_start[i]))
""", """            for (SizeType i = std::min(s, pos) + 1u; i--;)
                if (Traits::find(str, count, m_start[i]))
""")], r"""
#include <sharemind/StringView.h>
int main() {
    // the view ends before the text does
    sharemind::StringView const v("a/b/", 3u);
    if (v.findLastOf("/\\", 2u) != 1u) return 1;
    return v.findLastOf("/\\") == 1u ? 0 : 2;
}
""", "a view which does not end where the underlying text does, followed by a character looked for",
  "the character after the view is looked at, and reported as found")

S("optional-emplace-early", "C17", [("Optional.h",
"""        this->reset_();
        new (std::addressof(this->m_data)) T(std::forward<Args>(args)...);
        this->m_containsValue = true;
        return this->m_data;
""", """        this->reset_();
        this->m_containsValue = true;
        new (std::addressof(this->m_data)) T(std::forward<Args>(args)...);
        return this->m_data;
""")], r"""
#include <sharemind/Optional.h>
static int live = 0;
struct X {
    X(int i) { if (i < 0) throw i; ++live; }
    X(X const &) { ++live; }
    ~X() { --live; }
};
int main() {
    {
        sharemind::Optional<X> o;
        o.emplace(1);
        try { o.emplace(-1); return 1; } catch (int) {}
        if (o.hasValue()) return 2;
    }
    return live == 0 ? 0 : 3;
}
""", "a constructor which throws in emplace()", "the optional says there is a value, and destroys one which was never constructed", stubs=True)

S("optional-swap-left", "C17", [("Optional.h",
"""                    from.m_data.~T();
                    from.m_containsValue = false;
""", """                    from.m_containsValue = false;
""")], r"""
#include <sharemind/Optional.h>
static int live = 0;
struct X {
    X() { ++live; }
    X(X const &) { ++live; }
    X & operator=(X const &) { return *this; }
    ~X() { --live; }
};
int main() {
    {
        sharemind::Optional<X> a(sharemind::inPlace), b(sharemind::inPlace);
        a.swap(b);
        if (live != 2) return 1;
        b.reset();
        a.swap(b);
        if (a.hasValue() || !b.hasValue() || live != 1) return 2;
    }
    return live == 0 ? 0 : 3;
}
""", "swapping with an optional which is empty", "the value which was moved away is never destroyed", stubs=True)

S("packed-copy-moved-from", "C19", [("DynamicPackedStruct.h",
"""        if (m_data)
            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
""", """        std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
""")], r"""
#include <sharemind/DynamicPackedStruct.h>
#include <cstdint>
#include <utility>
int main() {
    using S = sharemind::DynamicPackedStruct<std::uint32_t, sharemind::DynamicVectorFieldPlaceholder<std::uint64_t>, std::uint8_t>;
    S a(100000u);
    S b(std::move(a));
    S c(a);                 // a copy of what has no data any more
    return c.data() || !b.data();
}
""", "copying a structure which was moved from", "bytes are copied from and to the null pointer", flags="-O0", stubs=True)

S("packed-valid-bytes", "C19", [("DynamicPackingInfo.h",
"               && (size <= FieldTraits<T>::max)\n", "               && (size <= FieldTraits<T>::maxBytes)\n")], r"""
#include <sharemind/DynamicPackingInfo.h>
#include <cstdint>
int main() {
    using namespace sharemind;
    using I = DynamicPackingInfo<DynamicFieldPlaceholder<1u, 7u>, std::uint32_t, DynamicVectorFieldPlaceholder<std::uint16_t, 2u, 9u> >;
    if (!I::validSizes(7u, 9u) || I::validSizes(8u, 9u) || I::validSizes(0u, 9u)) return 1;
    return I::validSizes(7u, 10u) || I::validSizes(7u, 18u);
}
""", "a vector field with more values than allowed but no more than its bytes", "sizes above the bound of a field are said to be valid", stubs=True)

S("templates-common-prefix-reset", "C20", [("TemplateCommonPrefixTypes.h",
"""                std::is_same<TT, T2T>::value,
                typename TemplateCommonPrefixTypes_<
                    Accum<AccumTs..., TT>,
                    T<TTs...>,
""", """                std::is_same<TT, T2T>::value,
                typename TemplateCommonPrefixTypes_<
                    typename std::conditional<
                        (sizeof...(AccumTs) < 4u),
                        Accum<AccumTs..., TT>,
                        Accum<TT, AccumTs...>
                    >::type,
                    T<TTs...>,
""")], r"""
#include <sharemind/TemplateCommonPrefixTypes.h>
#include <type_traits>
#include <tuple>
template <int> struct A;
int main() {
    using namespace sharemind;
    using L = std::tuple<A<0>, A<1>, A<2>, A<3>, A<4>, A<5> >;
    using M = std::tuple<A<0>, A<1>, A<2>, A<3>, A<4>, A<6> >;
    return std::is_same<TemplateCommonPrefixTypes_t<L, M>, TemplateTypeList<A<0>, A<1>, A<2>, A<3>, A<4> > >::value ? 0 : 1;
}
""", "a common prefix of at least five types", "the types of the common prefix are in another order")

S("traits-function-const-volatile", "C20", [("FunctionTraits.h",
"""    : FunctionTraits<R(C const volatile *,Args...)> {};
""", """    : FunctionTraits<R(C const *,Args...)> {};
""")], r"""
#include <sharemind/FunctionTraits.h>
#include <type_traits>
struct C { void f(int) const volatile; void g(int) const; };
int main() {
    using namespace sharemind;
    if (!std::is_same<FunctionTraits<decltype(&C::g)>::argument<0>, C const *>::value) return 1;
    return std::is_same<FunctionTraits<decltype(&C::f)>::argument<0>, C const volatile *>::value ? 0 : 2;
}
""", "a member function which is both const and volatile", "the object is said to be passed without one of its qualifiers")

S("datum-short-read", "C21", [("Datum.h",
"""                        leftToRead -= static_cast<U>(read);
                        if (leftToRead <= 0u)
                            break;
                        buf = ptrAdd(buf, read);
""", """                        leftToRead -= static_cast<U>(read);
                        if (leftToRead <= 0u)
                            break;
                        buf = ptrAdd(contents.data(), read);
""")], r'''
#include <dlfcn.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <sharemind/Datum.h>
using Read = ssize_t (*)(int, void *, size_t);
static bool slow = false;
extern "C" ssize_t read(int fd, void * p, size_t n) {
    static Read const r = reinterpret_cast<Read>(::dlsym(RTLD_NEXT, "read"));
    return r(fd, p, slow && n > 1000u ? 1000u : n);
}
int main() {
    char name[] = "/tmp/demo-XXXXXX";
    int const fd = ::mkstemp(name);
    if (fd < 0) return 99;
    std::string s;
    for (int i = 0; i < 5000; ++i) s.push_back(static_cast<char>(i * 7 + i / 256));
    if (::write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) return 99;
    ::close(fd);
    slow = true;
    sharemind::Datum d{std::string(name)};
    ::unlink(name);
    if (d.size() != s.size()) return 1;
    return std::string(static_cast<char const *>(d.constData()), d.size()) == s ? 0 : 2;
}
''', "a file of which read() gives less than asked for, at least twice", "pieces of the file overwrite each other", stubs=True)

S("uda-move-size", "C21", [("UninitializedDynamicArray.h",
"""        , m_data(std::move(move.m_data))
    { move.m_size = 0u; }
""", """        , m_data(std::move(move.m_data))
    { if (!m_data) move.m_size = 0u; }
""")], r'''
#include <sharemind/UninitializedDynamicArray.h>
#include <utility>
int main() {
    sharemind::UninitializedDynamicArray<int> a(3u);
    sharemind::UninitializedDynamicArray<int> b(std::move(a));
    return a.begin() == a.end() && b.end() - b.begin() == 3 ? 0 : 1;
}
''', "an array which is used after it has been moved from", "an array without memory says that it has elements")

S("bits-equal-mask", "C22", [("BitVector.h",
"""            block_type mask = bit_mask (m_num_bits - 1); /* find the highest bit */
            mask |= (mask - 1); /* set all lower bits (including the highest) */
""", """            block_type mask = bit_mask (m_num_bits); /* find the bit after the highest */
            mask -= 1u; /* set all lower bits */
""")], r'''
#include <cstddef>
#include <cstdint>
#include <memory>
#include <sharemind/BitVector.h>
using V = sharemind::BitVec<std::uint64_t, std::allocator<std::uint64_t>, std::vector<std::uint64_t> >;
int main() {
    for (std::size_t n = 1u; n < 200u; ++n) {
        for (std::size_t i = 0u; i < n; ++i) {
            V a(n, false), b(n, false);
            b[i] = true;
            if (a == b) return 1;
        }
    }
    return 0;
}
''', "vectors whose last block is full, and which differ in it only", "different vectors are said to be equal")

S("bits-push-stale", "C22", [("BitVector.h",
"""        block = val ? (block | mask) : (block & ~ mask);
""", """        if (val)
            block |= mask;
""")], r'''
#include <cstddef>
#include <cstdint>
#include <memory>
#include <sharemind/BitVector.h>
using V = sharemind::BitVec<std::uint64_t, std::allocator<std::uint64_t>, std::vector<std::uint64_t> >;
int main() {
    V a(5u, true);
    a.pop_back();
    a.push_back(false);
    return a[4u] ? 1 : 0;
}
''', "a bit which was set in the last block before it is added", "a false which is added becomes true")


S("wide-borrow-zero", "C24", [("uint_t.h", """            borrow = y.block(i) > temp || (borrow && x.block(i) == 0);
""", """            borrow = y.block(i) > temp;
""")], '''#include <sharemind/uint_t.h>
int main() {
    using I = sharemind::uint_t<192>;
    I const r(I(0u) - I(1u));
    I ones;
    ones = ~ones;
    return r == ones ? 0 : 1;
}
''', "a borrow which meets a block which is zero and is not the last one", "the borrow is lost")


S("wide-shift-excess", "C24", [("uint_t.h", """        for (std::size_t i = 0u; i < offset; ++i)
            block(i) = 0;
        clear_unused_bits_();
""", """        for (std::size_t i = 0u; i < offset; ++i)
            block(i) = 0;
""")], '''#include <sharemind/uint_t.h>
int main() {
    using I = sharemind::uint_t<100>;
    I a;
    a = ~a;
    a = a << std::uint64_t(64u);
    return (a >> std::uint64_t(99u)) == I(1u) && a == ~I(0u) - I(~std::uint64_t(0u)) ? 0 : 1;
}
''', "a number whose width is not a multiple of its blocks, shifted by a multiple of them", "bits beyond the width stay set")


S("split-last-single", "C23", [("Split.h", """        InputIterator it(first);
        do {
            if (++it == last) {
                matchAction(first, it);
                return;
            }
        } while (!delimPredicate(*it));
        matchAction(first, it);
        first = ++it;""", """        InputIterator it(first);
        if (++it == last)
            return;
        while (!delimPredicate(*it)) {
            if (++it == last) {
                matchAction(first, it);
                return;
            }
        }
        matchAction(first, it);
        first = ++it;""")], r'''
#include <sharemind/Split.h>
#include <string>
static std::string pieces(std::string const & s) {
    std::string r;
    sharemind::splitNoAllowEmpty(s.data(), s.data() + s.size(), [](char const c) { return c == ','; },
                                 [&r](char const * a, char const * b) { r.append("[").append(a, b).append("]"); });
    return r;
}
int main() { return pieces(",a,,bc,def") == "[a][bc][def]" && pieces("a,b,") == "[a][b]" && pieces("ab,c") == "[ab][c]" ? 0 : 1; }
''', "a text whose last piece has exactly one element and is not followed by a delimiter", "the last piece is lost")
