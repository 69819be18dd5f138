F = "CircBufferSCSP.h"
P = ("C11",)


def mu(name, *e):
    return (name, P, [(F, a, b) for a, b in e])


MUTANTS = [
    mu("cb-w-offset-le", ("if (m_writeOffset < offsetLimit) {", "if (m_writeOffset <= offsetLimit) {")),
    mu("cb-r-offset-le", ("if (m_readOffset < offsetLimit) {", "if (m_readOffset <= offsetLimit) {")),
    mu("cb-r-wrap-zero", ("m_readOffset = size - (m_bufferSize - m_readOffset);", "m_readOffset = 0u;")),
    mu("cb-w-wrap-plus", ("m_writeOffset = size - (m_bufferSize - m_writeOffset);",
                          "m_writeOffset = size - (m_bufferSize - m_writeOffset) + 1u;")),
    mu("cb-space-ube-off", ("{ return std::min(spaceAvailable(), m_bufferSize - m_writeOffset); }",
                            "{ return std::min(spaceAvailable(), m_bufferSize - m_readOffset); }")),
    mu("cb-data-ube-nomin", ("{ return std::min(dataAvailable(), m_bufferSize - m_readOffset); }",
                             "{ return dataAvailable(); }")),
    mu("cb-retube-w", ("            std::size_t const ret = haveWritten(size);\n        return std::min(ret, m_bufferSize - m_writeOffset);".replace("            std", "        std"),
                       "        std::size_t const ret = haveWritten(size);\n        return std::min(ret, m_bufferSize);")),
    mu("cb-retube-r", ("        std::size_t const ret = haveRead(size);\n        return std::min(ret, m_bufferSize - m_readOffset);",
                       "        std::size_t const ret = haveRead(size);\n        return ret;")),
    mu("cb-haveWritten-ret", ("return m_bufferSize - ret;", "return ret;")),
    mu("cb-publish-before-copy", ("                Actions::copyAction(Actions::operatePtr(this), copyPtr, size);\n                Actions::doneNoRet(this, size);",
                                  "                auto const p = Actions::operatePtr(this);\n                Actions::doneNoRet(this, size);\n                Actions::copyAction(p, copyPtr, size);")),
    mu("cb-total-lost", ("return transferred + size;", "return size;")),
    mu("cb-ptr-not-advanced", ("copyPtr = sharemind::ptrAdd(copyPtr, aUBE);", "copyPtr = sharemind::ptrAdd(copyPtr, transferred);")),
    mu("cb-size-not-decreased", ("            size -= aUBE;\n", "            size -= std::min(aUBE, newAUBE);\n")),
    mu("cb-transferred-order", ("            transferred += aUBE;\n            if (newAUBE == 0u)\n                return transferred;",
                                "            if (newAUBE == 0u)\n                return transferred;\n            transferred += aUBE;")),
    mu("cb-actor-offer-more", ("        std::size_t totalTransferred;\n        {\n            std::size_t const toTransfer = availableUntilBufferEnd;",
                               "        std::size_t totalTransferred;\n        {\n            std::size_t const toTransfer = Actions::availableUntilBufferEnd(this) + (m_bufferSize > 3u);")),
    mu("cb-actor-continue", ("                if ((transferred < toTransfer)\n                    || (availableUntilBufferEnd <= 0u))",
                             "                if (availableUntilBufferEnd <= 0u)")),
    mu("cb-actor-stop-early", ("            if ((totalTransferred < toTransfer)\n                || (availableUntilBufferEnd <= 0u))\n                return totalTransferred;",
                               "            if ((totalTransferred <= toTransfer)\n                || (availableUntilBufferEnd <= 0u))\n                return totalTransferred;")),
    mu("cb-actor-announce-offered", ("Actions::doneRetUbe(this, transferred);", "Actions::doneRetUbe(this, toTransfer);")),
    mu("cb-actor-total", ("                totalTransferred += transferred;\n", "                totalTransferred = transferred;\n")),
    mu("cb-inc-unlocked", ("            std::lock_guard<MutexType> const guard(m_dataAvailableMutex);\n        m_dataAvailable += size;".replace("            std", "        std"),
                           "        m_dataAvailable += size;\n        std::lock_guard<MutexType> const guard(m_dataAvailableMutex);")),
    mu("cb-wait-once", ("        while (!Condition::test(lockingImpl.dataAvailableNoLocking(),\n                                this->m_bufferSize))\n            lockingImpl.wait(lock);",
                        "        if (!Condition::test(lockingImpl.dataAvailableNoLocking(),\n                                this->m_bufferSize))\n            lockingImpl.wait(lock);")),
    mu("cb-wait-space-ret", ("return this->m_bufferSize - waitAvailable<HaveSpaceTest>(", "return waitAvailable<HaveSpaceTest>(")),
    mu("cb-space-test", ("return in != bufferSize;", "return in + 1u < bufferSize;")) if False else
    mu("cb-space-test", ("return in != bufferSize;", "return in != bufferSize - 1u;")),
    mu("cb-full", ("{ return spaceAvailable() <= 0u; }", "{ return spaceAvailable() <= 1u; }")),
    mu("cb-empty", ("{ return dataAvailable() <= 0u; }", "{ return spaceAvailable() >= m_bufferSize - m_readOffset; }")),
    mu("cb-ube-out", ("availableUntilBufferEnd = std::min(available,\n                                           m_bufferSize - m_readOffset);",
                      "availableUntilBufferEnd = available;")),
    mu("cb-ctor-offset", (", m_writeOffset(0u)", ", m_writeOffset(bufferSize / 2u)")),
    mu("cb-ctor-size", (", m_bufferSize(bufferSize)", ", m_bufferSize(bufferSize + 1u)")),
    mu("cb-nolock-dec", ("        m_dataAvailable -= size;\n        return m_dataAvailable;\n    }\n\nprivate: /* Fields: */\n\n    std::size_t m_dataAvailable = 0u;\n\n};\n\nnamespace",
                         "        m_dataAvailable -= size;\n        return m_dataAvailable + size;\n    }\n\nprivate: /* Fields: */\n\n    std::size_t m_dataAvailable = 0u;\n\n};\n\nnamespace")),
    ("cb-copy-count", P, [("PotentiallyVoidTypeInfo.h", "", "")]),
]
MUTANTS.pop()

EQUIV = [
    mu("cb-e-mod", ("        std::size_t const offsetLimit = m_bufferSize - size;\n        if (m_readOffset < offsetLimit) {\n            m_readOffset += size;\n        } else {\n            assert(size >= (m_bufferSize - m_readOffset));\n            m_readOffset = size - (m_bufferSize - m_readOffset);\n        }",
                    "        m_readOffset = (m_readOffset + size) % m_bufferSize;")),
    mu("cb-e-sum", ("        std::size_t const offsetLimit = m_bufferSize - size;\n        if (m_writeOffset < offsetLimit) {\n            m_writeOffset += size;\n        } else {\n            assert(size >= (m_bufferSize - m_writeOffset));\n            m_writeOffset = size - (m_bufferSize - m_writeOffset);\n        }",
                    "        auto o = m_writeOffset + size;\n        if (o >= m_bufferSize)\n            o -= m_bufferSize;\n        m_writeOffset = o;")),
    mu("cb-e-loop", ("            copyPtr = sharemind::ptrAdd(copyPtr, aUBE);\n            size -= aUBE;\n            aUBE = newAUBE;",
                     "            size = size - aUBE;\n            copyPtr = copyPtr + aUBE;\n            aUBE = newAUBE;")),
    mu("cb-e-while", ("""        std::size_t transferred = 0u;
        for (;;) {
            assert(aUBE > 0u);
            if (aUBE >= size) {
                Actions::copyAction(Actions::operatePtr(this), copyPtr, size);
                Actions::doneNoRet(this, size);
                return transferred + size;
            }
            assert(size > aUBE);
            Actions::copyAction(Actions::operatePtr(this), copyPtr, aUBE);
            std::size_t const newAUBE = Actions::doneRetUbe(this, aUBE);
            transferred += aUBE;
            if (newAUBE == 0u)
                return transferred;
            copyPtr = sharemind::ptrAdd(copyPtr, aUBE);
            size -= aUBE;
            aUBE = newAUBE;
        }""", """        std::size_t left = size;
        while (left > 0u && aUBE > 0u) {
            std::size_t const n = std::min(aUBE, left);
            Actions::copyAction(Actions::operatePtr(this), copyPtr + (size - left), n);
            aUBE = Actions::doneRetUbe(this, n);
            left -= n;
        }
        return size - left;""")),
    mu("cb-e-actor-while", ("""        // First iteration:
        std::size_t totalTransferred;
        {
            std::size_t const toTransfer = availableUntilBufferEnd;
            totalTransferred = actor(Actions::operatePtr(this), toTransfer);
            assert(totalTransferred <= toTransfer);
            availableUntilBufferEnd =
                    Actions::doneRetUbe(this, totalTransferred);
            if ((totalTransferred < toTransfer)
                || (availableUntilBufferEnd <= 0u))
                return totalTransferred;
        }
""", "        std::size_t totalTransferred = 0u;\n")),
    mu("cb-e-min", ("{ return std::min(spaceAvailable(), m_bufferSize - m_writeOffset); }",
                    "{ auto const a = spaceAvailable(); auto const e = m_bufferSize - m_writeOffset; return a < e ? a : e; }")),
    mu("cb-e-helper", ("{ return spaceAvailable() <= 0u; }", "{ return dataAvailable() == m_bufferSize; }")),
    mu("cb-e-retube", ("        std::size_t const ret = haveRead(size);\n        return std::min(ret, m_bufferSize - m_readOffset);",
                       "        auto const ret = haveRead(size);\n        auto const e = m_bufferSize - m_readOffset;\n        if (e < ret)\n            return e;\n        return ret;")),
]
