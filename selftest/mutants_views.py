N = "StringView.h"


def m(name, *edits):
    return (name, ("C16",), [(N, a, b) for a, b in edits])


MUTANTS = [
    m("sv-at", ("        if (n >= m_size)\n            throw std::out_of_range(\"BasicStringView::at()", "        if (n > m_size)\n            throw std::out_of_range(\"BasicStringView::at()")),
    m("sv-back", ("{ return *(m_start + (m_size - 1u)); }", "{ return *(m_start + m_size - (m_size > 1u)); }")),
    m("sv-end", ("    constexpr ConstIterator end() const noexcept { return m_start + m_size; }", "    constexpr ConstIterator end() const noexcept { return m_start + (m_size & ~(SizeType(1u) << 40)); }")),
    m("sv-prefix", ("        m_start += n;\n        m_size -= n;\n", "        m_start += n;\n")),
    m("sv-suffix", ("        //assert(n <= m_size);\n        m_size -= n;\n    }\n\n    constexpr void swap", "        //assert(n <= m_size);\n        m_size = n;\n    }\n\n    constexpr void swap")),
    m("sv-swap", ("        (*this) = other;\n        other = tmp;\n", "        (*this) = other;\n        other = *this;\n        (void) tmp;\n")),
    m("sv-substr-bound", ("        if (pos > m_size)\n            throw std::out_of_range(\"BasicStringView::substr(): pos > size()!\");", "        if (pos >= m_size)\n            throw std::out_of_range(\"BasicStringView::substr(): pos > size()!\");")),
    m("sv-substr-size", ("std::min(n, m_size - pos));\n    }\n\n    constexpr BasicStringView left(", "std::min(n, m_size) - pos);\n    }\n\n    constexpr BasicStringView left(")),
    m("sv-substr-wrap", ("std::min(n, m_size - pos));\n    }\n\n    constexpr BasicStringView left(", "(pos + n <= m_size) ? n : m_size - pos);\n    }\n\n    constexpr BasicStringView left(")),
    m("sv-left-short", ("        if (n > m_size)\n            throw std::out_of_range(\"BasicStringView::left(): n > size()!\");\n        return BasicStringView(m_start, n);", "        if (n > m_size + 1u)\n            throw std::out_of_range(\"BasicStringView::left(): n > size()!\");\n        return BasicStringView(m_start, n);")),
    m("sv-right-start", ("        return BasicStringView(m_start + (m_size - n), n);", "        return BasicStringView(m_start + n, n);")),
    m("sv-clip-wrap", ("        if ((l > m_size) || (r > m_size - l))", "        if (l + r > m_size)")),
    m("sv-clip-start", ("        return BasicStringView(m_start + l, m_size - l - r);", "        return BasicStringView(m_start + r, m_size - l - r);")),
    m("sv-cmp-len", ("        return (m_size < n) ? -1 : 1;", "        return (m_size <= n) ? 1 : -1;")),
    m("sv-cmp-eq", ("        if (m_size == n)\n            return 0;\n", "")),
    m("sv-cmp-max", ("        if (auto r = Traits::compare(m_start, str, std::min(m_size, n)))", "        if (auto r = Traits::compare(m_start, str, m_size))")),
    m("sv-cmp-diff", ("        if (m_size == n)\n            return 0;\n        return (m_size < n) ? -1 : 1;", "        return static_cast<int>(m_size - n);")),
    m("sv-starts-eq", ("    constexpr bool startsWith(CharT c) const noexcept\n    { return (m_size > 0u) && ", "    constexpr bool startsWith(CharT c) const noexcept\n    { return ")),
    m("sv-ends-eq", ("    { return (m_size > 0u) && (Traits::eq(back(), c)); }", "    { return Traits::eq(back(), c); }")),
    m("sv-find-pos", ("        if (pos < m_size)\n            if (auto const * p = Traits::find(m_start + pos, m_size - pos, c))", "        if (pos < m_size)\n            if (auto const * p = Traits::find(m_start + pos, m_size, c))")),
    m("sv-find-rel", ("                return static_cast<SizeType>(p - m_start);", "                return static_cast<SizeType>(p - (m_start + pos));")),
    m("sv-find-empty", ("            return (pos <= m_size) ? pos : npos;", "            return pos;")),
    m("sv-find-under", ("        if (count <= m_size)\n            for (; pos <= m_size - count; ++pos)", "            for (; pos <= m_size - count; ++pos)")),
    m("sv-find-last", ("            for (; pos <= m_size - count; ++pos)", "            for (; pos < m_size - count; ++pos)")),
    m("sv-find-skip", ("                if (Traits::compare(m_start + pos, str, count) == 0)\n                    return pos;\n        return npos;\n    }\n\n    constexpr SizeType find(BasicStringView", "                if (Traits::compare(m_start + pos, str, count) == 0)\n                    return pos;\n                else\n                    pos += (count > 8u);\n        return npos;\n    }\n\n    constexpr SizeType find(BasicStringView")),
    m("sv-rfind-first", ("                if (pos <= 0)\n                    break;", "                if (pos <= 1u)\n                    break;")),
    m("sv-rfind-wrap", ("                if (pos <= 0)\n                    break;\n", "")),
    m("sv-rfind-clip", ("                if (maxFirstPos < pos)\n", "                if (maxFirstPos + 1u < pos)\n")),
    m("sv-rfind-c", ("            for (auto i = std::min(s - 1u, pos) + 1u; i--;)\n                if (Traits::eq(", "            for (auto i = std::min(s - 1u, pos); i--;)\n                if (Traits::eq(")),
    m("sv-rfind-c2", ("            for (auto i = std::min(s - 1u, pos) + 1u; i--;)\n                if (Traits::eq(", "            for (auto i = std::min(s, pos + 1u); i--;)\n                if (Traits::eq(")),
    m("sv-rfind-default", ("    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos)", "    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u)")),
    m("sv-first-of-count", ("            if (Traits::find(str, count, m_start[pos]))\n                return pos;", "            if (Traits::find(str, m_size, m_start[pos]))\n                return pos;")),
    m("sv-first-not-of", ("            if (!Traits::find(str, count, m_start[pos]))\n                return pos;", "            if (Traits::find(str, count, m_start[pos]))\n                return pos;")),
    m("sv-first-not-pos", ("        for (; pos < m_size; ++pos)\n            if (!Traits::eq(m_start[pos], c))\n                return pos;", "        for (; pos < m_size; ++pos)\n            if (!Traits::eq(m_start[pos], c))\n                return pos ? pos : npos;")),
    m("sv-ltrim-size", ("                return BasicStringView(m_start + i, m_size - i);\n        return BasicStringView();\n    }\n\n    constexpr BasicStringView leftTrimmed(CharT const * cs, SizeType count)", "                return BasicStringView(m_start + i, m_size);\n        return BasicStringView();\n    }\n\n    constexpr BasicStringView leftTrimmed(CharT const * cs, SizeType count)")),
    m("sv-rtrim", ("            if (!Traits::find(cs, count, m_start[i]))\n                return BasicStringView(m_start, i + 1u);", "            if (!Traits::find(cs, count, m_start[i]))\n                return BasicStringView(m_start, i);")),
    m("sv-trim", ("                    if (!Traits::eq(m_start[i2], c))\n                        /* Return range [i, i2]: */\n                        return BasicStringView(m_start + i, i2 + 1u - i);", "                    if (!Traits::eq(m_start[i2], c))\n                        /* Return range [i, i2]: */\n                        return BasicStringView(m_start + i, i2 - i);")),
    m("sv-trim-front", ("        for (SizeType i = 0u; i < m_size; ++i) /* first inclusive */\n            if (!Traits::eq(m_start[i], c))", "        for (SizeType i = 0u; i + 1u < m_size; ++i) /* first inclusive */\n            if (!Traits::eq(m_start[i], c))")),
    m("sv-le", ("operator<=", None)) if False else m("sv-copy", ("        if (pos > m_size)\n            throw std::out_of_range(\"BasicStringView::copy", "        if (pos > m_size + 1u)\n            throw std::out_of_range(\"BasicStringView::copy")),
]
EQUIV = [
    m("sv-eq-trim", ("        for (SizeType i = 0u; i < m_size; ++i) /* first inclusive */\n            if (!Traits::eq(m_start[i], c))\n                for (SizeType i2 = m_size - 1u;; --i2) /* last inclusive */\n                    if (!Traits::eq(m_start[i2], c))\n                        /* Return range [i, i2]: */\n                        return BasicStringView(m_start + i, i2 + 1u - i);\n        return BasicStringView();", "        return leftTrimmed(c).rightTrimmed(c);")),
    m("sv-eq-trim2", ("        for (SizeType i = 0u; i < m_size; ++i) /* first inclusive */\n            if (!Traits::eq(m_start[i], c))\n                for (SizeType i2 = m_size - 1u;; --i2) /* last inclusive */\n                    if (!Traits::eq(m_start[i2], c))\n                        /* Return range [i, i2]: */\n                        return BasicStringView(m_start + i, i2 + 1u - i);\n        return BasicStringView();", "        auto b = m_start;\n        auto e = m_start + m_size;\n        while (b != e && Traits::eq(*b, c)) ++b;\n        while (e != b && Traits::eq(*(e - 1), c)) --e;\n        return BasicStringView(b, static_cast<SizeType>(e - b));")),
    m("sv-eq-ltrim", ("        for (SizeType i = 0u; i < m_size; ++i)\n            if (!Traits::eq(m_start[i], c))\n                return BasicStringView(m_start + i, m_size - i);\n        return BasicStringView();", "        auto const pos = findFirstNotOf(c);\n        if (pos == npos)\n            return BasicStringView();\n        return BasicStringView(m_start + pos, m_size - pos);")),
    m("sv-eq-find", ("            for (; pos <= m_size - count; ++pos)\n                if (Traits::compare(m_start + pos, str, count) == 0)\n                    return pos;", "            while (pos <= m_size - count) {\n                if (!Traits::compare(&m_start[pos], str, count))\n                    return pos;\n                pos++;\n            }")),
    m("sv-eq-rfind", ("            {\n                auto const maxFirstPos = m_size - count;\n                if (maxFirstPos < pos)\n                    pos = maxFirstPos;\n            }\n            for (;; --pos) {\n                if (Traits::compare(m_start + pos, str, count) == 0)\n                    return pos;\n                if (pos <= 0)\n                    break;\n            }", "            for (auto i = std::min(m_size - count, pos) + 1u; i > 0u; --i)\n                if (Traits::compare(m_start + (i - 1u), str, count) == 0)\n                    return i - 1u;")),
    m("sv-eq-firstof", ("        for (; pos < m_size; ++pos)\n            if (Traits::find(str, count, m_start[pos]))\n                return pos;\n        return npos;", "        if (pos >= m_size)\n            return npos;\n        for (auto p = m_start + pos, e = m_start + m_size; p != e; ++p)\n            if (Traits::find(str, count, *p))\n                return static_cast<SizeType>(p - m_start);\n        return npos;")),
    m("sv-eq-cmp", ("        if (m_size == n)\n            return 0;\n        return (m_size < n) ? -1 : 1;", "        return (m_size > n) - (m_size < n);")),
    m("sv-eq-substr", ("std::min(n, m_size - pos));\n    }\n\n    constexpr BasicStringView left(", "(n < m_size - pos) ? n : (m_size - pos));\n    }\n\n    constexpr BasicStringView left(")),
    m("sv-eq-clip", ("        if ((l > m_size) || (r > m_size - l))", "        if (!((l <= m_size) && (m_size - l >= r)))")),
]
