N = "Optional.h"


def m(name, *edits):
    return (name, ("C17",), [(N, a, b) for a, b in edits])


RESET = """    void reset_() noexcept {
        if (m_containsValue) {
            m_data.~T();
            m_containsValue = false;
        }
    }
"""
DTOR = "        if (m_containsValue)\n            m_data.~T();\n    }\n\n    void reset_"
EMPL = """        this->reset_();
        new (std::addressof(this->m_data)) T(std::forward<Args>(args)...);
        this->m_containsValue = true;
        return this->m_data;
"""
COPY = """            new (std::addressof(this->m_data)) T(copy.m_data);
            this->m_containsValue = true;
"""
MOVE = """                    new (std::addressof(to.m_data)) T(std::move(from.m_data));
                    to.m_containsValue = true;
                    from.m_data.~T();
                    from.m_containsValue = false;
"""
NEWA = """            new (std::addressof(this->m_data)) T(fromValue); \\
            this->m_containsValue = true; \\
"""

MUTANTS = [
    m("opt-reset-keeps-flag", (RESET, RESET.replace("            m_containsValue = false;\n", ""))),
    m("opt-reset-no-dtor", (RESET, RESET.replace("            m_data.~T();\n", ""))),
    m("opt-dtor-always", (DTOR, DTOR.replace("        if (m_containsValue)\n    ", ""))),
    m("opt-dtor-never", (DTOR, DTOR.replace("        if (m_containsValue)\n            m_data.~T();\n", ""))),
    m("opt-trivial-reset", ("    void reset_() noexcept { this->m_containsValue = false; }", "    void reset_() noexcept {}")),
    m("opt-emplace-flag-first", (EMPL, "        this->reset_();\n        this->m_containsValue = true;\n        new (std::addressof(this->m_data)) T(std::forward<Args>(args)...);\n        return this->m_data;\n")),
    m("opt-emplace-no-reset", (EMPL, EMPL.replace("        this->reset_();\n", ""))),
    m("opt-emplace-dtor-only", (EMPL, EMPL.replace("this->reset_();", "if (this->m_containsValue) this->m_data.~T();"))),
    m("opt-emplace-copies", (EMPL, EMPL.replace("T(std::forward<Args>(args)...)", "T(args...)"))),
    m("opt-copy-flag-first", (COPY, "\n".join(reversed(COPY.rstrip("\n").split("\n"))) + "\n")),
    m("opt-copy-no-flag", (COPY, COPY.split("\n")[0] + "\n")),
    m("opt-swap-leaves", (MOVE, MOVE.replace("                    from.m_data.~T();\n", ""))),
    m("opt-swap-both", (MOVE, MOVE.replace("                    from.m_containsValue = false;\n", ""))),
    m("opt-swap-flag-early", (MOVE, "                    from.m_containsValue = false;\n" + MOVE.replace("                    from.m_containsValue = false;\n", ""))),
    m("opt-swap-half", ("                doMove(rhs, *this);", "                doMove(*this, rhs);")),
    m("opt-swap-none", ("        } else if (this->m_containsValue) {\n            doMove(*this, rhs);\n        }", "        }")),
    m("opt-assign-flag", (NEWA, NEWA.replace("            this->m_containsValue = true; \\\n", ""))),
    m("opt-assign-empty", ("    } else { \\\n        this->reset_(); \\\n    } \\", "    } \\")),
    m("opt-assign-construct", ("            this->m_data = fromValue; \\\n", "            new (std::addressof(this->m_data)) T(fromValue); \\\n")),
    m("opt-null-assign", ("    Optional & operator=(NullOption) noexcept {\n        this->reset_();", "    Optional & operator=(NullOption) noexcept {\n        this->m_containsValue = false;")),
    m("opt-move-assign-copies", ("                                    std::move(move.m_data));", "                                    move.m_data);")),
    m("opt-or-inverted", ("               ? T(SHAREMIND_CLANGPR22637_WORKAROUND(this->m_data))\n               : T(std::forward<Args>(args)...);", "               ? T(std::forward<Args>(args)...)\n               : T(SHAREMIND_CLANGPR22637_WORKAROUND(this->m_data));")),
    m("opt-or-copies", ("               ? std::move(this->m_data)\n               : static_cast", "               ? static_cast<T>(this->m_data)\n               : static_cast")),
    m("opt-eq-empty", ("           : (bool(lhs) == false ? true : (*lhs == *rhs));", "           : (*lhs == *rhs);")),
    m("opt-lt-empty", ("{ return !rhs ? false : (!lhs ? true : (*lhs < *rhs)); }", "{ return !lhs ? true : (!rhs ? false : (*lhs < *rhs)); }")),
    m("opt-ge-swapped", ("{ return !rhs ? true : (!lhs ? false : (*lhs >= *rhs)); }", "{ return !rhs ? true : (!lhs ? false : (*rhs <= *lhs || *lhs > *rhs)); }")),
    m("opt-null-lt", ("SHAREMIND_OPTIONAL_H_NULLCOMPARE(<,  (static_cast<void>(x), false), bool(x))", "SHAREMIND_OPTIONAL_H_NULLCOMPARE(<,  !x, bool(x))")),
    m("opt-value-lt", ("SHAREMIND_OPTIONAL_H_VALUECOMPARE(<,  true,  false)", "SHAREMIND_OPTIONAL_H_VALUECOMPARE(<,  false, false)")),
    m("opt-value-gt", ("    { return bool(x) ? (v op *x) : r2; }", "    { return bool(x) ? (*x op v) : r2; }")),
    m("opt-conv-unchecked", ("        : Optional()\n    {\n        if (v.hasValue())\n            this->emplace(std::move(*v));\n    }", "        : Optional(inPlace, std::move(*v))\n    {}")),
    m("opt-conv-copies", ("            this->emplace(std::move(*v));", "            this->emplace(*v);")),
    m("opt-no-move-disable", ("        , private Detail::Optional::EnableMoveCtor<T>\n", "")),
    m("opt-copyable-moveonly", ("    CopyConstructorBase(CopyConstructorBase const &)             = delete;", "    CopyConstructorBase(CopyConstructorBase const & c) : DestructorBase<T>() { this->m_containsValue = c.m_containsValue; }")),
    m("opt-cmp-noexcept", ("            noexcept(noexcept(*x op v)) \\\n", "            noexcept \\\n")),
    m("opt-star-moves", ("    constexpr T & operator*() & noexcept\n    { return (assert(this->m_containsValue), this->m_data); }", "    constexpr T & operator*() & noexcept\n    { this->m_containsValue = false; return this->m_data; }")),
]

EQUIV = [
    m("e-opt-dtor-reset", (DTOR, "        reset_();\n    }\n\n    void reset_")),
    m("e-opt-reset-order", (RESET, "    void reset_() noexcept {\n        if (!m_containsValue)\n            return;\n        m_containsValue = false;\n        m_data.~T();\n    }\n")),
    m("e-opt-emplace-helper", (EMPL, "        this->reset_();\n        return this->construct_(std::forward<Args>(args)...);\n"),
      ("    void reset_() noexcept { this->m_containsValue = false; }", "    void reset_() noexcept { this->m_containsValue = false; }\n    template <typename ... Args> T & construct_(Args && ... args) {\n        T * const p = ::new (static_cast<void *>(std::addressof(m_data))) T(std::forward<Args>(args)...);\n        m_containsValue = true;\n        return *p;\n    }\n"),
      (RESET, RESET + "    template <typename ... Args> T & construct_(Args && ... args) {\n        T * const p = ::new (static_cast<void *>(std::addressof(m_data))) T(std::forward<Args>(args)...);\n        m_containsValue = true;\n        return *p;\n    }\n")),
    m("e-opt-emplace-guard", (EMPL, "        if (this->hasValue())\n            this->reset();\n        T * const r = new (std::addressof(this->m_data)) T(std::forward<Args>(args)...);\n        this->m_containsValue = true;\n        return *r;\n")),
    m("e-opt-swap-refactor", (MOVE, MOVE.replace("                    to.m_containsValue = true;\n                    from.m_data.~T();\n                    from.m_containsValue = false;\n", "                    from.reset_();\n                    to.m_containsValue = true;\n"))),
    m("e-opt-lt", ("{ return !rhs ? false : (!lhs ? true : (*lhs < *rhs)); }", "{\n    if (rhs.hasValue() && lhs.hasValue())\n        return *lhs < *rhs;\n    return rhs.hasValue() && !lhs.hasValue();\n}")),
    m("e-opt-eq", ("    return (bool(lhs) != bool(rhs))\n           ? false\n           : (bool(lhs) == false ? true : (*lhs == *rhs));", "    if (lhs.hasValue() != rhs.hasValue())\n        return false;\n    return !lhs || *lhs == *rhs;")),
    m("e-opt-assign-self", ("    { SHAREMIND_OPTIONAL_H_ASSIGN(copy.m_containsValue, copy.m_data); }", "    {\n        if (this == &copy)\n            return *this;\n        SHAREMIND_OPTIONAL_H_ASSIGN(copy.m_containsValue, copy.m_data);\n    }")),
    m("e-opt-conv", ("            this->emplace(std::move(*v));", "            this->emplace(*std::move(v));")),
    m("e-opt-valueor", ("               ? std::move(this->m_data)\n               : T(std::forward<Args>(args)...);", "               ? T(static_cast<T &&>(*(*this)))\n               : T(std::forward<Args>(args)...);")),
]
