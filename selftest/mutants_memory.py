def m(name, f, *edits):
    return (name, ("C21",), [(f + ".h", a, b) for a, b in edits])


AA, UD, DA, SE, IM = "AlignedAllocator", "UninitializedDynamicArray", "Datum", "ScopeExit", "InputMemoryStream"
MUTANTS = [
    m("mm-align-min", AA, ("(ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT", "ALIGNMENT")),
    m("mm-align-cap", AA, ("(ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT", "sizeof(void *) + 0u * ALIGNMENT")),
    m("mm-no-overflow-check", AA, ("        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))\n            throw std::bad_alloc();\n", "")),
    m("mm-overflow-off", AA, ("std::numeric_limits<std::size_t>::max() / sizeof(T)", "std::numeric_limits<std::size_t>::max() / sizeof(T) + 1u")),
    m("mm-overflow-strict", AA, ("n > std::numeric_limits<std::size_t>::max() / sizeof(T)", "n > std::numeric_limits<std::size_t>::max() / (2u * sizeof(T) * sizeof(T))")),
    m("mm-alloc-n", AA, ("allocateAlignedStorage<alignof(T)>(n * sizeof(T))", "allocateAlignedStorage<alignof(T)>(n * alignof(T))")),
    m("mm-alloc-align", AA, ("allocateAlignedStorage<alignof(T)>(n * sizeof(T))", "allocateAlignedStorage<alignof(void *)>(n * sizeof(T))")),
    m("mm-ignore-failure", AA, ("!= 0)\n        return nullptr;", "!= 0)\n        return p;")),
    m("mm-inverted-failure", AA, (", alignment, size) != 0)", ", alignment, size) == 12)")),
    m("mm-null-instead", AA, ("        return p;\n    throw std::bad_alloc();", "        return p;\n    return nullptr;")),
    m("mm-free-twice", AA, ("{ std::free(ptr); }", "{ if (ptr) std::free(ptr); std::free(ptr); }")),
    m("mm-free-never", AA, ("{ freeAlignedStorage(p); }", "{ (void) p; }")),
    m("mm-members-delete", AA, ("    void operator delete[](void * p) \\\n    { ::sharemind::freeAlignedStorage(p); }", "    void operator delete[](void * p) \\\n    { ::operator delete[](p); }")),
    m("mm-members-array-align", AA, ("    void * operator new[](std::size_t size) \\\n    { return ::sharemind::template allocateAlignedStorage<alignment>(size); }", "    void * operator new[](std::size_t size) \\\n    { return ::sharemind::template allocateAlignedStorage<1u>(size); }")),
    m("mm-eq", AA, ("{ return true; }", "{ return sizeof(T1) == sizeof(T2); }")),
    m("uda-move-size", UD, ("    { move.m_size = 0u; }", "    {}")),
    m("uda-assign-size", UD, ("        move.m_size = 0u;\n        m_data =", "        m_data =")),
    m("uda-assign-lost", UD, ("        m_data = std::move(move.m_data);\n        m_size = newSize;", "        m_data.release();\n        m_data = std::move(move.m_data);\n        m_size = newSize;")),
    m("uda-assign-self", UD, ("        auto const newSize = move.m_size;\n        move.m_size = 0u;\n        m_data = std::move(move.m_data);\n        m_size = newSize;", "        m_size = move.m_size;\n        m_data = std::move(move.m_data);\n        move.m_size = 0u;")),
    m("uda-assign-return", UD, ("        return *this;", "        return move;")),
    m("uda-size-less", UD, ("std::make_unique<AllocType[]>(size)", "std::make_unique<AllocType[]>(size - (size > 1000u))")),
    m("uda-end", UD, ("    { return reinterpret_cast<T const *>(m_data.get() + m_size); }\n\n    ConstIterator cend", "    { return reinterpret_cast<T const *>(m_data.get()) + m_size * alignof(T); }\n\n    ConstIterator cend")),
    m("uda-empty", UD, ("{ return !m_size; }", "{ return !m_data; }")),
    m("uda-index", UD, ("    ConstPointer data(SizeType const index) const noexcept\n    { return reinterpret_cast<T const *>(m_data.get() + index); }", "    ConstPointer data(SizeType const index) const noexcept\n    { return reinterpret_cast<T const *>(m_data.get() + (index & 0xffffffffu)); }")),
    m("se-copy", SE, ("    ScopeExit(ScopeExit const &) = delete;", "    ScopeExit(ScopeExit const &) = default;")),
    m("se-move-copies", SE, ("{ m_f.swap(move.m_f); }", ": m_f(move.m_f) {}")),
    m("se-normal-only", SE, ("        if (m_f)\n            m_f();", "        if (m_f && !std::uncaught_exception())\n            m_f();"), ("#include <functional>", "#include <functional>\n#include <exception>")),
    m("im-size", IM, ("this->setg(d, d, d + size);", "this->setg(d, d, d + size - (size > 4096u));")),
    m("im-istream", IM, ("std::basic_istream<CharT, Traits>(\n", "std::istream(\n")),
    m("im-put", IM, ("this->setg(d, d, d + size);", "this->setg(d, d, d + size); this->setp(d, d + size);")),
    m("da-assert", DA, ("                    auto const read = ::read(inFd, buf, toReadAtOnce);\n", "                    auto const read = ::read(inFd, buf, toReadAtOnce);\n                    assert(static_cast<U>(read) <= toReadAtOnce);\n")),
    m("da-close-normal", DA, ("            ::close(inFd);\n        } catch", "        } catch")),
    m("da-close-error", DA, ("            if (inFd >= 0)\n                ::close(inFd);\n            std::throw_with_nested", "            std::throw_with_nested")),
    m("da-close-always", DA, ("            if (inFd >= 0)\n                ::close(inFd);\n            std::throw_with_nested", "            ::close(inFd);\n            std::throw_with_nested")),
    m("da-close-zero", DA, ("            if (inFd >= 0)\n                ::close(inFd);\n            std::throw_with_nested", "            if (inFd > 0)\n                ::close(inFd);\n            std::throw_with_nested")),
    m("da-no-cloexec", DA, ("O_RDONLY | O_CLOEXEC", "O_RDONLY")),
    m("da-short", DA, ("                        if (leftToRead <= 0u)\n                            break;", "                        break;")),
    m("da-no-advance", DA, ("                        buf = ptrAdd(buf, read);", "")),
    m("da-full-count", DA, ("::read(inFd, buf, toReadAtOnce)", "::read(inFd, buf, contents.size())")),
    m("da-eintr", DA, ("                        if (errno != EINTR)\n                            throw ErrnoException(errno);", "                        throw ErrnoException(errno);")),
    m("da-errors-ignored", DA, ("                        if (errno != EINTR)\n                            throw ErrnoException(errno);", "                        if (errno != EINTR && errno != EIO)\n                            throw ErrnoException(errno);")),
    m("da-eof", DA, ("                    if (read == 0) {\n                        throw FileSizeChangedException();", "                    if (read == 0) {\n                        break;")),
    m("da-eof-resize", DA, ("                        if (leftToRead <= 0u)\n                            break;", "                        if (leftToRead <= 4u)\n                            break;")),
    m("da-errno-late", DA, ("                assert(inFd == -1);\n                throw ErrnoException(errno);", "                assert(inFd == -1);\n                ::close(-1); throw ErrnoException(errno);")),
    m("da-fifo", DA, ("if ((statBuf.st_mode & S_IFMT) != S_IFREG)", "if ((statBuf.st_mode & S_IFMT) == S_IFDIR)")),
    m("da-fstat", DA, ("                            assert(r == -1);\n                            throw ErrnoException(errno);", "                            assert(r == -1);\n                            return 0u;")),
    m("da-assign-size", DA, ("        m_data.resize(size);\n        std::copy", "        if (m_data.size() < size) m_data.resize(size);\n        std::copy")),
    m("da-assign-order", DA, ("                  m_data.data());", "                  m_data.data() + (m_data.size() - size / 2u * 2u - size % 2u + size / 70000u));")),
    m("da-end", DA, ("    void * dataEnd() noexcept\n    { return m_data.data() + m_data.size(); }", "    void * dataEnd() noexcept\n    { return m_data.data() + m_data.capacity(); }")),
    m("da-load-clears", DA, ("    { m_data = loadFileToContainer(filename); }", "    { m_data.clear(); m_data = loadFileToContainer(filename); }")),
]
EQUIV = [
    m("mm-eq-check-mul", AA, ("        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))\n            throw std::bad_alloc();\n", "        constexpr auto const most = std::numeric_limits<std::size_t>::max() / sizeof(T);\n        if (!(n <= most))\n            throw std::bad_alloc();\n        auto const bytes = n * sizeof(T);\n"), ("allocateAlignedStorage<alignof(T)>(n * sizeof(T))", "allocateAlignedStorage<alignof(T)>(bytes)")),
    m("mm-eq-result", AA, ("    if (::posix_memalign(&p, alignment, size) != 0)\n        return nullptr;\n    return p;", "    auto const r = ::posix_memalign(&p, alignment, size);\n    return r ? nullptr : p;")),
    m("mm-eq-aligned-alloc", AA, ("    if (::posix_memalign(&p, alignment, size) != 0)\n        return nullptr;\n    return p;", "    p = nullptr; if (::posix_memalign(&p, alignment, size) == 0)\n        return p;\n    return nullptr;")),
    m("mm-eq-throw", AA, ("    if (void * const p = allocateAlignedStorage<ALIGNMENT>(size, std::nothrow))\n        return p;\n    throw std::bad_alloc();", "    void * const p = allocateAlignedStorage<ALIGNMENT>(size, std::nothrow);\n    if (!p)\n        throw std::bad_alloc{};\n    return p;")),
    m("uda-eq-swap", UD, ("        auto const newSize = move.m_size;\n        move.m_size = 0u;\n        m_data = std::move(move.m_data);\n        m_size = newSize;", "        if (this != &move) {\n            m_data = std::move(move.m_data);\n            m_size = move.m_size;\n            move.m_size = 0u;\n        }")),
    m("uda-eq-exchange", UD, ("        auto const newSize = move.m_size;\n        move.m_size = 0u;\n        m_data = std::move(move.m_data);\n        m_size = newSize;", "        auto tmp(std::move(move.m_data));\n        auto const newSize = move.m_size;\n        move.m_size = 0u;\n        m_data.swap(tmp);\n        m_size = newSize;")),
    m("uda-eq-end", UD, ("    Iterator end() noexcept\n    { return reinterpret_cast<T *>(m_data.get() + m_size); }", "    Iterator end() noexcept { return begin() + m_size; }")),
    m("uda-eq-new", UD, ("m_data(std::make_unique<AllocType[]>(size))", "m_data(new AllocType[size]())")),
    m("se-eq-local", SE, ("        if (m_f)\n            m_f();", "        if (!m_f)\n            return;\n        m_f();")),
    m("im-eq", IM, ("        auto d = const_cast<CharT *>(data);\n        this->setg(d, d, d + size);", "        auto const first = const_cast<CharT *>(data);\n        auto const last = first + size;\n        this->setg(first, first, last);")),
    m("da-eq-loop", DA, ("                for (;;) {\n                    auto const toReadAtOnce", "                while (leftToRead > 0u) {\n                    auto const toReadAtOnce"), ("                        if (leftToRead <= 0u)\n                            break;\n", "")),
    m("da-eq-switch", DA, ("                    if (read == 0) {\n                        throw FileSizeChangedException();\n                    } else if (read < 0) {", "                    if (!read)\n                        throw FileSizeChangedException();\n                    if (read == -1) {")),
    m("da-eq-index", DA, ("                        buf = ptrAdd(buf, read);", "                        buf += read;")),
    m("da-eq-offset", DA, ("::read(inFd, buf, toReadAtOnce)", "::read(inFd, contents.data() + (contents.size() - leftToRead), toReadAtOnce)"), ("                        buf = ptrAdd(buf, read);\n", "                        (void) buf;\n")),
    m("da-eq-guard", DA, ("            if (inFd >= 0)\n                ::close(inFd);\n            std::throw_with_nested", "            if (inFd != -1)\n                ::close(inFd);\n            std::throw_with_nested")),
    m("da-eq-assign", DA, ("        m_data.resize(size);\n        std::copy(static_cast<char const *>(data),\n                  static_cast<char const *>(data) + size,\n                  m_data.data());", "        auto const first = static_cast<char const *>(data);\n        m_data.resize(size);\n        std::copy(first, first + size, m_data.begin());")),
    m("da-eq-memcpy", DA, ("        std::copy(static_cast<char const *>(data),\n                  static_cast<char const *>(data) + size,\n                  m_data.data());", "        std::copy_n(static_cast<char const *>(data), size, m_data.begin());")),
    m("da-eq-again", DA, ("if (errno != EINTR)\n", "if ((errno != EINTR) && (errno != EAGAIN))\n")),
]
