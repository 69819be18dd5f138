def m(name, *edits):
    return (name, ("C22",), [("BitVector.h", a, b) for a, b in edits])


MUTANTS = [
    m("bv-move-size", ("    {\n        other.m_num_bits = 0;\n    }", "    {\n    }")),
    m("bv-massign-size", ("        m_num_bits = other.m_num_bits;\n        other.m_num_bits = 0;\n        return", "        m_num_bits = other.m_num_bits;\n        return")),
    m("bv-massign-no-size", ("        m_num_bits = other.m_num_bits;\n        other.m_num_bits = 0;\n        return", "        other.m_num_bits = 0;\n        return")),
    m("bv-clear-size", ("        m_blocks.clear ();\n        m_num_bits = 0;", "        m_blocks.clear ();")),
    m("bv-clear-blocks", ("        m_blocks.clear ();\n        m_num_bits = 0;", "        m_num_bits = 0;")),
    m("bv-get-mask", ("return (m_blocks[block_index (idx)] & bit_mask (idx)) != 0;", "return (m_blocks[block_index (idx)] >> bit_index (idx)) != 0;")),
    m("bv-get-int", ("static block_type bit_mask (size_type pos) { return block_type (1) << bit_index (pos); }", "static block_type bit_mask (size_type pos) { return static_cast<block_type>(1 << bit_index (pos)); }")),
    m("bv-at-off", ("        if (idx >= m_num_bits)\n            throw std::out_of_range (\"sharemind::BitVec::at\");\n        return (*this)[idx];\n    }\n\n    reference", "        if (idx > m_num_bits)\n            throw std::out_of_range (\"sharemind::BitVec::at\");\n        return (*this)[idx];\n    }\n\n    reference")),
    m("bv-at-blocks", ("    /** \\throws std::out_of_range */\n    reference at (size_type idx) {\n        if (idx >= m_num_bits)", "    /** \\throws std::out_of_range */\n    reference at (size_type idx) {\n        if (block_index (idx) >= m_blocks.size ())")),
    m("bv-back", ("return (*this)[m_num_bits - 1];", "return (m_blocks.back () >> (bits_per_block() - 1)) != 0;")),
    m("bv-swap-size", ("        std::swap (m_num_bits, other.m_num_bits);", "        if (empty () != other.empty ()) std::swap (m_num_bits, other.m_num_bits);")),
    m("bv-push-or", ("block = val ? (block | mask) : (block & ~ mask);", "block |= val ? mask : 0;")),
    m("bv-push-early", ("if (m_num_bits % bits_per_block() == 0) {\n            m_blocks.push_back (0);", "if ((m_num_bits + 1) % bits_per_block() == 0) {\n            m_blocks.push_back (0);")),
    m("bv-pop-keep", ("        if (m_num_bits % bits_per_block() == 0) {\n            m_blocks.pop_back ();\n        }\n", "")),
    m("bv-fill-old", ("        resize(n);\n        val ? set() : reset();", "        val ? set() : reset();\n        resize(n);")),
    m("bv-append-excess", ("last = (last & mask) | (b << r);", "last |= (b << r);")),
    m("bv-append-extra", ("                if (m_blocks.size () < num_blocks) {\n                    m_blocks.push_back (b >> (bits_per_block() - r));\n                }", "                m_blocks.push_back (b >> (bits_per_block() - r));")),
    m("bv-append-lost", ("if (m_blocks.size () < num_blocks) {", "if (m_blocks.size () + 1u < num_blocks) {")),
    m("bv-append-size", ("        m_num_bits = num_bits;\n    }\n\n    template <typename Rng>", "        m_num_bits = m_blocks.size () * bits_per_block();\n    }\n\n    template <typename Rng>")),
    m("bv-append-shift", ("b >> (bits_per_block() - r)", "b >> (bits_per_block() - r - 1)")),
    m("bv-set-reset", ("~ block_type (0));", "block_type (1));")),
    m("bv-flip-first", ("            *i = ~ *i;", "            *i = static_cast<block_type>(- *i);")),
    m("bv-xor-or", ("m_blocks[i] ^= other.m_blocks[i];", "m_blocks[i] |= other.m_blocks[i];")),
    m("bv-and-last", ("        for (size_type i = 0; i < num_blocks_ (); ++ i) {\n            m_blocks[i] &= other", "        for (size_type i = 0; i + (m_num_bits % bits_per_block() != 0) < num_blocks_ (); ++ i) {\n            m_blocks[i] &= other")),
    m("bv-or-first", ("        for (size_type i = 0; i < num_blocks_ (); ++ i) {\n            m_blocks[i] |= other", "        for (size_type i = (num_blocks_ () > 2u); i < num_blocks_ (); ++ i) {\n            m_blocks[i] |= other")),
    m("bv-eq-size", ("        if (m_num_bits != other.m_num_bits)\n            return false;", "        if (m_blocks.size () != other.m_blocks.size ())\n            return false;")),
    m("bv-eq-last", ("            mask |= (mask - 1);", "            mask = (mask - 1);")),
    m("bv-eq-all", ("if (((m_blocks[i] ^ other.m_blocks[i]) & mask) != 0) {", "if (m_blocks[i] != other.m_blocks[i]) {")),
    m("bv-eq-first", ("for (i = 0; i < n - 1; ++ i)", "for (i = n - 1; i < n - 1; ++ i)")),
    m("bv-ser-shift", ("block |= typename Serialization::block_type (m_blocks[block_index]) << b;", "block |= typename Serialization::block_type (m_blocks[block_index] << b);")),
    m("bv-ser-index", ("            block |= typename Serialization::block_type (m_blocks[block_index]) << b;\n            ++ block_index;", "            block |= typename Serialization::block_type (m_blocks[block_index]) << b;\n            if (block_index < 3u) ++ block_index;")),
    m("bv-de-size", ("    if (num_bits != m_num_bits) {\n        return false;\n    }\n", "")),
    m("bv-de-size-less", ("    if (num_bits != m_num_bits) {", "    if (num_bits > m_num_bits) {")),
    m("bv-de-end", ("        if (! msg.read (block))\n            return false;", "        if (! msg.read (block))\n            break;")),
    m("bv-de-reset", ("    reset ();\n    size_type block_index = 0;", "    size_type block_index = 0;")),
    m("bv-iter-mask", ("                ++ block_iter;\n                mask = 1;", "                mask = 1;\n                ++ block_iter; if (m_num_bits > 8u) mask = 2;")),
    m("bv-assign-range", ("        reset ();\n        typename store_type::iterator block_iter", "        typename store_type::iterator block_iter")),
    m("bv-release", ("        store_type().swap (m_blocks);\n        m_num_bits = 0;", "        store_type().swap (m_blocks);")),
]
EQUIV = [
    m("bv-eq-get-shift", ("return (m_blocks[block_index (idx)] & bit_mask (idx)) != 0;", "return (m_blocks[block_index (idx)] >> bit_index (idx)) & 1u;")),
    m("bv-eq-push", ("block = val ? (block | mask) : (block & ~ mask);", "block &= ~ mask;\n        if (val)\n            block |= mask;")),
    m("bv-eq-push-xor", ("block = val ? (block | mask) : (block & ~ mask);", "block ^= (static_cast<block_type>(- static_cast<block_type>(val)) ^ block) & mask;")),
    m("bv-eq-pop", ("        -- m_num_bits;\n        if (m_num_bits % bits_per_block() == 0) {\n            m_blocks.pop_back ();\n        }", "        if (m_num_bits % bits_per_block() == 1)\n            m_blocks.pop_back ();\n        m_num_bits -= 1;")),
    m("bv-eq-pop8", ("        if (m_num_bits % bits_per_block() == 0) {\n            m_blocks.pop_back ();\n        }", "        m_blocks.resize (compute_block_count (m_num_bits));")),
    m("bv-eq-swap", ("        m_blocks.swap (other.m_blocks);\n        std::swap (m_num_bits, other.m_num_bits);", "        auto const n = m_num_bits;\n        m_num_bits = other.m_num_bits;\n        other.m_num_bits = n;\n        m_blocks.swap (other.m_blocks);")),
    m("bv-eq-massign", ("        m_blocks = std::move(other.m_blocks);\n        m_num_bits = other.m_num_bits;\n        other.m_num_bits = 0;\n        return", "        if (this != &other) {\n            m_blocks = std::move(other.m_blocks);\n            m_num_bits = other.m_num_bits;\n            other.clear ();\n        }\n        return")),
    m("bv-eq-append", ("last = (last & mask) | (b << r);", "last = (last & mask) + (b << r);")),
    m("bv-eq-flip", ("            *i = ~ *i;", "            *i ^= static_cast<block_type>(~ block_type (0));")),
    m("bv-eq-set", ("        std::fill (m_blocks.begin (), m_blocks.end (), ~ block_type (0));", "        for (auto & b : m_blocks)\n            b = static_cast<block_type>(-1);")),
    m("bv-eq-and", ("m_blocks[i] &= other.m_blocks[i];", "m_blocks[i] = static_cast<block_type>(~(~ m_blocks[i] | ~ other.m_blocks[i]));")),
    m("bv-eq-equals", ("            block_type mask = bit_mask (m_num_bits - 1); /* find the highest bit */\n            mask |= (mask - 1); /* set all lower bits (including the highest) */\n            if (((m_blocks[i] ^ other.m_blocks[i]) & mask) != 0) {\n                return false;\n            }", "            const block_type mask = static_cast<block_type>(block_type (~ block_type (0)) >> (bits_per_block() - 1 - bit_index (m_num_bits - 1)));\n            return (m_blocks[i] & mask) == (other.m_blocks[i] & mask);")),
    m("bv-eq-equals-shift", ("            mask |= (mask - 1); /* set all lower bits (including the highest) */", "            mask += static_cast<block_type>(mask - 1);")),
    m("bv-eq-ser", ("block |= typename Serialization::block_type (m_blocks[block_index]) << b;", "block += typename Serialization::block_type (m_blocks[block_index]) << b;")),
    m("bv-eq-de", ("            m_blocks[block_index] |= block_type (block >> b);", "            m_blocks[block_index] = block_type (block >> b);")),
    m("bv-eq-count", ("return (num_bits / bits_per_block()) + static_cast<size_type>(num_bits % bits_per_block() != 0);", "return (num_bits + bits_per_block() - 1u) / bits_per_block();")),
    m("bv-eq-iter", ("            if (*i) { *block_iter |= mask; }\n            if ((mask <<= 1) == 0) {", "            if (*i)\n                *block_iter = static_cast<block_type>(*block_iter | mask);\n            mask = static_cast<block_type>(mask << 1);\n            if (! mask) {")),
]
EQUIV += [
    m("bv-eq-ctor", ("        , m_num_bits (num_bits)\n    { }", "        , m_num_bits (num_bits)\n    { m_blocks.reserve (compute_block_count (num_bits)); }")),
    m("bv-eq-fill", ("        std::fill (m_blocks.begin (), m_blocks.end (), block_type (0));\n        return *this;", "        m_blocks.assign (m_blocks.size (), block_type (0));\n        return *this;")),
    m("bv-eq-emplace", ("            m_blocks.push_back (0);", "            m_blocks.emplace_back (block_type (0));")),
    m("bv-eq-equal-blocks", ("            for (i = 0; i < n - 1; ++ i) {\n                if (m_blocks[i] != other.m_blocks[i])\n                    return false;\n            }", "            if (! std::equal (m_blocks.begin (), m_blocks.end () - 1, other.m_blocks.begin ()))\n                return false;\n            i = n - 1;")),
]
