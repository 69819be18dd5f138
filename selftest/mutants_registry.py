ID = "IdentifierPool.h"
M = "SharedResourceMap.h"


def m(name, f, *e):
    return (name, ("C18",), [(f, a, b) for a, b in e])


MUTANTS = [
    m("ip-nolookup", ID, ("            while (m_reserved.find(tryNext) != m_reserved.end())\n                if (++tryNext == oldTryNext)\n                    throw ReserveException();\n", "")),
    m("ip-once", ID, ("            while (m_reserved.find(tryNext) != m_reserved.end())\n                if (++tryNext == oldTryNext)", "            if (m_reserved.find(tryNext) != m_reserved.end())\n                if (++tryNext == oldTryNext)")),
    m("ip-skip", ID, ("if (++tryNext == oldTryNext)", "if ((tryNext += 2u) == oldTryNext)")),
    m("ip-early", ID, ("if (++tryNext == oldTryNext)", "if (++tryNext == 0u)")),
    m("ip-other", ID, ("            return tryNext;\n        }\n\n        /**", "            return oldTryNext;\n        }\n\n        /**")),
    m("ip-insert-next", ID, ("m_reserved.insert(tryNext);", "m_reserved.insert(m_tryNextId);")),
    m("ip-unlock-between", ID, ("std::lock_guard<std::mutex> const guard(m_mutex);\n            T tryNext", "std::unique_lock<std::mutex> guard(m_mutex);\n            T tryNext"),
      ("            m_reserved.insert(tryNext);", "            guard.unlock();\n            guard.lock();\n            m_reserved.insert(tryNext);")),
    m("ip-move-copy", ID, (", m_state(std::move(move.m_state))", ", m_state(move.m_state)")),
    m("ip-assign-norecycle", ID, ("                if (m_state)\n                    m_state->recycle(m_id);\n                m_id = move.m_id;", "                m_id = move.m_id;")),
    m("ip-assign-order", ID, ("                if (m_state)\n                    m_state->recycle(m_id);\n                m_id = move.m_id;", "                m_id = move.m_id;\n                if (m_state)\n                    m_state->recycle(m_id);")),
    m("ip-assign-self", ID, ("if (this != &move) {", "{")),
    m("ip-release-keep", ID, ("                m_state->recycle(m_id);\n                m_state.reset();", "                m_state->recycle(m_id);")),
    m("ip-release-lost", ID, ("                m_state->recycle(m_id);\n                m_state.reset();", "                m_state.reset();")),
    m("ip-dtor", ID, ("        ~IdHolder() noexcept {\n            if (m_state)\n                m_state->recycle(m_id);\n        }", "        ~IdHolder() noexcept {}")),
    m("ip-uaf", ID, ("                m_state->recycle(m_id);\n                m_state.reset();", "                auto & s = *m_state;\n                m_state.reset();\n                s.recycle(m_id);")),
    m("ip-id-before", ID, ("m_id(state->reserve())\n            , m_state(std::move(state))", "m_id(state->reserve() + 1u)\n            , m_state(std::move(state))")),
    m("ip-strong-release", ID, ("void release() noexcept { m_inner.release(); }", "void release() noexcept {}")),
    m("rm-dup", M, ("            if (auto s = obj->weakPtr.lock())\n                return s;\n", "")),
    m("rm-noerase", M, ("                m_inner->m_data.erase(rp.first);\n                throw;", "                throw;")),
    m("rm-wrongmap", M, ("valueObj->weakPtr = r;", "")),
    m("rm-erase-alive", M, ("                            && it->second->weakPtr.expired())", "                            )")),
    m("rm-erase-not", M, ("                            && it->second->weakPtr.expired())", "                            && !it->second->weakPtr.expired())")),
    m("rm-keep", M, ("                            c.m_data.erase(it);\n", "")),
    m("rm-test-own", M, ("                            && it->second->weakPtr.expired())", "                            && true)")),
    m("rm-keep-ref", M, ("                    auto obj(std::move(*holder));", "                    auto obj(*holder);")),
    m("rm-construct-unlocked", M, ("        std::lock_guard<std::mutex> const guard(m_inner->m_mutex);\n        auto it", "        std::unique_lock<std::mutex> guard(m_inner->m_mutex);\n        auto it"),
      ("                auto & obj = rp.first->second;\n                obj = std::make_shared", "                auto & obj = rp.first->second;\n                guard.unlock();\n                obj = std::make_shared"), ("                m_inner->m_cond.notify_all();\n                return createShared(obj);", "                guard.lock();\n                return createShared(obj);")),
    m("rm-expired-new", M, ("            return createShared(obj);\n        } else", "            obj = std::make_shared<ValueObj_>(m_inner, key, constructor, args...);\n            return createShared(obj);\n        } else")),
    m("rm-each-expired", M, ("if (auto ptr = v.second->weakPtr.lock()) {", "if (auto ptr = v.second->realPtr) {")),
    m("rm-each-noref", M, ("                    resources.push_back(ptr);\n", "")),
    m("rm-each-order", M, ("            std::vector<std::shared_ptr<Value> > resources;\n            std::unique_lock<std::mutex> lock(m_mutex);", "            std::unique_lock<std::mutex> lock(m_mutex);\n            std::vector<std::shared_ptr<Value> > resources;")),
    m("rm-each-first", M, ("                    f(v.first, std::move(ptr));\n", "                    f(v.first, std::move(ptr));\n                    break;\n")),
    m("rm-size", M, ("return m_data.size();", "return m_data.size() + 1u;")),
    m("rm-key", M, ("auto it = m_inner->m_data.find(key);", "auto it = m_inner->m_data.find(key ^ 1);")),
    m("rm-deleter-find", M, ("c.m_data.find(obj->key)", "c.m_data.find(obj->key + 0 * 2 + 1)")),
]
EQUIV = [
    m("ip-eq-insert", ID, ("            while (m_reserved.find(tryNext) != m_reserved.end())\n                if (++tryNext == oldTryNext)\n                    throw ReserveException();\n            m_reserved.insert(tryNext);\n",
      "            while (!m_reserved.insert(tryNext).second)\n                if (++tryNext == oldTryNext)\n                    throw ReserveException();\n")),
    m("ip-eq-count", ID, ("while (m_reserved.find(tryNext) != m_reserved.end())", "while (m_reserved.count(tryNext) > 0u)")),
    m("ip-eq-for", ID, ("            while (m_reserved.find(tryNext) != m_reserved.end())\n                if (++tryNext == oldTryNext)\n                    throw ReserveException();\n",
      "            for (;;) {\n                auto const it = m_reserved.find(tryNext);\n                if (it == m_reserved.end())\n                    break;\n                tryNext = tryNext + 1u;\n                if (tryNext == oldTryNext)\n                    throw ReserveException();\n            }\n")),
    m("ip-eq-emplace", ID, ("m_reserved.insert(tryNext);", "m_reserved.emplace(tryNext);")),
    m("ip-eq-swap", ID, ("                if (m_state)\n                    m_state->recycle(m_id);\n                m_id = move.m_id;\n                m_state = std::move(move.m_state);", "                release();\n                m_id = move.m_id;\n                m_state.swap(move.m_state);")),
    m("ip-eq-dtor", ID, ("        ~IdHolder() noexcept {\n            if (m_state)\n                m_state->recycle(m_id);\n        }", "        ~IdHolder() noexcept { release(); }")),
    m("rm-eq-find", M, ("        auto it = m_inner->m_data.find(key);\n        if (it != m_inner->m_data.end()) {", "        auto & data = m_inner->m_data;\n        auto const it = data.find(key);\n        if (data.end() != it) {")),
    m("rm-eq-lock", M, ("                    if (auto cPtr = obj->container.lock()) {", "                    auto const cPtr = obj->container.lock();\n                    if (cPtr) {")),
    m("rm-eq-each", M, ("            for (auto const & v : m_data) {\n                if (auto ptr", "            for (auto it = m_data.begin(); it != m_data.end(); ++it) {\n                auto const & v = *it;\n                if (auto ptr")),
    m("rm-eq-nest", M, ("                        if ((it != c.m_data.end())\n                            && it->second->weakPtr.expired())\n", "                        if (it == c.m_data.end())\n                            return;\n                        if (it->second->weakPtr.expired())\n")),
    m("rm-eq-uc", M, ("&& it->second->weakPtr.expired())", "&& it->second->weakPtr.use_count() == 0)")),
]
