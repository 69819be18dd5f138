"""more refactorings which do not change what the code does"""
SV, OP, BV, LR, ID, CB = "StringView.h", "Optional.h", "BitVector.h", "LRU.h", "IdentifierPool.h", "CircBufferSCSP.h"
MUTANTS = []
EQUIV = [
    ("rg-sv-out", ["C16"], [(SV, """            if (w == 0) {
                Detail::StringView::doOut(os, v.m_start, v.m_size);
            } else {
                if (w > 0) {
                    if (integralGreaterEqual(v.m_size, w)) {
                        Detail::StringView::doOut(os, v.m_start, v.m_size);
                    } else {""", """            if (w <= 0) {
                if (w == 0)
                    Detail::StringView::doOut(os, v.m_start, v.m_size);
                else
                    os.width(0);
            } else {
                {
                    if (!integralLess(v.m_size, w)) {
                        Detail::StringView::doOut(os, v.m_start, v.m_size);
                    } else {""")]),
    ("rg-sv-substr", ["C16"], [(SV, """            throw std::out_of_range("BasicStringView::substr(): pos > size()!");
        return BasicStringView(m_start + pos, std::min(n, m_size - pos));""", """            throw std::out_of_range("BasicStringView::substr(): pos > size()!");
        auto r(*this);
        r.removePrefix(pos);
        if (r.size() > n)
            r.removeSuffix(r.size() - n);
        return r;""")]),
    ("rg-sv-clip", ["C16"], [(SV, """        return BasicStringView(m_start + l, m_size - l - r);""", """        return leftClipped(l).rightClipped(r);""")]),
    ("rg-sv-right", ["C16"], [(SV, """        return BasicStringView(m_start + (m_size - n), n);""", """        return {end() - n, n};""")]),
    ("rg-sv-compare", ["C16"], [(SV, """        if (auto r = Traits::compare(m_start, str, std::min(m_size, n)))
            return r;
        if (m_size == n)
            return 0;
        return (m_size < n) ? -1 : 1;""", """        auto const common = (n < m_size) ? n : m_size;
        int r = Traits::compare(m_start, str, common);
        if (r == 0 && m_size != n)
            r = (m_size > n) ? 1 : -1;
        return r;""")]),
    ("rg-sv-swap", ["C16"], [(SV, """        auto tmp(*this);
        (*this) = other;
        other = tmp;""", """        auto const start(m_start);
        m_start = other.m_start;
        other.m_start = start;
        auto const n(m_size);
        m_size = other.m_size;
        other.m_size = n;""")]),
    ("rg-op-assign", ["C17"], [(OP, """    if (fromHasValue) { \\
        if (this->m_containsValue) { \\
            this->m_data = fromValue; \\
        } else { \\
            new (std::addressof(this->m_data)) T(fromValue); \\
            this->m_containsValue = true; \\
        } \\
    } else { \\
        this->reset_(); \\
    } \\""", """    if (!(fromHasValue)) { \\
        this->reset_(); \\
    } else if (!this->m_containsValue) { \\
        new (std::addressof(this->m_data)) T(fromValue); \\
        this->m_containsValue = true; \\
    } else { \\
        this->m_data = fromValue; \\
    } \\""")]),
    ("rg-bv-push", ["C22"], [(BV, """        if (m_num_bits % bits_per_block() == 0) {
            m_blocks.push_back (0);
        }

        block_type& block = m_blocks.back ();
        const block_type mask = bit_mask (m_num_bits);
        block = val ? (block | mask) : (block & ~ mask);
        ++ m_num_bits;""", """        if (bit_index (m_num_bits) == 0)
            m_blocks.push_back (val ? 1 : 0);
        else if (val)
            m_blocks.back () |= bit_mask (m_num_bits);
        else
            m_blocks.back () &= ~ bit_mask (m_num_bits);
        ++ m_num_bits;""")]),
    ("rg-bv-assign", ["C22"], [(BV, """        void assign_bit_ (bool x) const { x ? set_bit_ () : reset_bit_ (); }""", """        void assign_bit_ (bool x) const {
            if (x != ((m_block & m_mask) != 0))
                flip_bit_ ();
        }""")]),
    ("rg-lru-grow", ["C18"], [(LR, """        for (auto it = m_weakList.cbegin();
             it != m_weakList.cend();)
        {
            if (it->expired()) {
                m_cacheMap.erase(it->key());
                auto toRemove(it);
                ++it;
                m_weakList.erase(std::move(toRemove));
            } else {
                ++it;
            }
        }""", """        auto it = m_weakList.begin();
        while (it != m_weakList.end()) {
            if (!it->expired()) {
                ++it;
                continue;
            }
            m_cacheMap.erase(it->key());
            it = m_weakList.erase(it);
        }""")]),
    ("rg-lru-get", ["C18"], [(LR, """            // found an element
            if (it->second->isStrong()) {
                // Move found item to front of LRU list:
                m_cacheList.splice(m_cacheList.cbegin(),
                                   m_cacheList,
                                   it->second);
            } else {""", """            // found an element
            bool const wasStrong = it->second->isStrong();
            if (wasStrong) {
                if (it->second != m_cacheList.begin())
                    m_cacheList.splice(m_cacheList.cbegin(),
                                       m_cacheList,
                                       it->second);
            } else {""")]),
    ("rg-id-reserve", ["C01", "C02", "C18"], [(ID, """            while (m_reserved.find(tryNext) != m_reserved.end())
                if (++tryNext == oldTryNext)
                    throw ReserveException();
            m_reserved.insert(tryNext);""", """            while (!m_reserved.insert(tryNext).second) {
                ++tryNext;
                if (tryNext == oldTryNext)
                    throw ReserveException();
            }""")]),
    ("rg-id-count", ["C01", "C02", "C18"], [(ID, """            while (m_reserved.find(tryNext) != m_reserved.end())
                if (++tryNext == oldTryNext)
                    throw ReserveException();""", """            for (; m_reserved.count(tryNext) != 0u;) {
                tryNext = static_cast<T>(tryNext + 1u);
                if (tryNext == oldTryNext)
                    throw ReserveException();
            }""")]),
    ("rg-id-move", ["C01", "C02", "C18"], [(ID, """            if (this != &move) {
                if (m_state)
                    m_state->recycle(m_id);
                m_id = move.m_id;
                m_state = std::move(move.m_state);
            }
            return *this;""", """            if (this == &move)
                return *this;
            release();
            m_id = move.m_id;
            m_state = std::move(move.m_state);
            return *this;""")]),
    ("rg-cb-have", ["C11"], [(CB, """        std::size_t const offsetLimit = m_bufferSize - size;
        if (m_readOffset < offsetLimit) {
            m_readOffset += size;
        } else {
            assert(size >= (m_bufferSize - m_readOffset));
            m_readOffset = size - (m_bufferSize - m_readOffset);
        }
        assert(m_readOffset < m_bufferSize);
        return ret;""", """        std::size_t const untilEnd = m_bufferSize - m_readOffset;
        m_readOffset = (size >= untilEnd) ? size - untilEnd
                                          : m_readOffset + size;
        assert(m_readOffset < m_bufferSize);
        return ret;""")]),
    ("rg-cb-ube", ["C11"], [(CB, """    std::size_t dataAvailableUntilBufferEnd() const noexcept
    { return std::min(dataAvailable(), m_bufferSize - m_readOffset); }""", """    std::size_t dataAvailableUntilBufferEnd() const noexcept {
        std::size_t r;
        (void) dataAvailable(r);
        return r;
    }""")]),
    ("rg-cb-early", ["C11"], [(CB, """        std::size_t const ret = decreaseDataAvailable(size);
        assert(m_readOffset < m_bufferSize);
        std::size_t const offsetLimit = m_bufferSize - size;
        if (m_readOffset < offsetLimit) {
            m_readOffset += size;
        } else {
            assert(size >= (m_bufferSize - m_readOffset));
            m_readOffset = size - (m_bufferSize - m_readOffset);
        }
        assert(m_readOffset < m_bufferSize);
        return ret;""", """        std::size_t newOffset = m_readOffset;
        if (newOffset < m_bufferSize - size) {
            newOffset += size;
        } else {
            newOffset -= m_bufferSize - size;
        }
        m_readOffset = newOffset;
        return decreaseDataAvailable(size);""")]),
]
