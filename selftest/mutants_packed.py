I, D, R, P, K = "DynamicPackingInfo.h", "DynamicPackedStruct.h", "UnalignedReference.h", "UnalignedPointer.h", "PackingInfo.h"


def m(name, f, *edits):
    return (name, ("C19",), [(f, a, b) for a, b in edits])


VAL = "        T const & value = static_cast<T const &>(std::forward<T_>(v));\n        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));\n"
POPV = "        accum += sizeof(T) * size;\n        (*ptr) = accum;\n"
POPD = "        accum += size;\n        (*ptr) = accum;\n"
VALID = "        return (size >= FieldTraits<T>::min)\n               && (size <= FieldTraits<T>::max)\n               && ValidSizes<Ts...>::isValid(std::forward<Args>(args)...);\n"
ASGC = """        if (!copy.m_data) {
            m_data.reset();
        } else {
            if (!m_data || (size() != copy.size()))
                m_data.reset(::operator new(copy.size()));
            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
        }
        m_sizes = copy.m_sizes;
"""
CC = """        : m_data(copy.m_data ? ::operator new(copy.size()) : nullptr)
        , m_sizes(copy.m_sizes)
    {
        if (m_data)
            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
"""
INC = "    type & operator++() noexcept {\n        m_ptr = ptrAdd(m_ptr, sizeof(T));\n        return *this;\n    }\n"
POST = "    type operator++(int) noexcept {\n        type tmp = *this;\n        operator++();\n        return tmp;\n"
AT = "    reference operator[](difference_type const n) const noexcept\n    { return ptrAdd(m_ptr, sizeof(T) * n); }\n"
TAIL = """        : std::conditional<
            DynamicFieldFilter<Ts...>::size() <= 0u,
            std::integral_constant<std::size_t, sizeOfTypes<Ts...>()>,
            StaticTailSize<Ts...>
        >::type
"""

MUTANTS = [
    m("pk-tail-all", I, (TAIL, TAIL.replace("size() <= 0u", "size() <= 1u"))),
    m("pk-tail-first", I, (TAIL, TAIL.replace("sizeOfTypes<Ts...>()", "sizeOfTypes<T, Ts...>()"))),
    m("pk-populate-vector-as-bytes", I, (POPV, POPV.replace("sizeof(T) * size", "size"))),
    m("pk-populate-store-first", I, (POPD, "        (*ptr) = accum;\n        accum += size;\n")),
    m("pk-populate-no-static", I, ("                                           accum + sizeof(T),\n", "                                           accum,\n")),
    m("pk-populate-not-accumulated", I, ("        accum += sizeof(T) * size;\n        (*ptr) = accum;\n        AccumVecPopulator<Ts...>::populate(ptr + 1u,\n                                           accum,",
                                         "        (*ptr) = accum + sizeof(T) * size;\n        AccumVecPopulator<Ts...>::populate(ptr + 1u,\n                                           accum,")),
    m("pk-size-vector", I, ("        return sizeof(T) * size\n               + AccumSize", "        return size\n               + AccumSize")),
    m("pk-size-static", I, ("    { return sizeof(T) + AccumSize<Ts...>", "    { return alignof(T) + AccumSize<Ts...>")),
    m("pk-size-tail", I, ("? StaticTailSize<Ts...>::value + (*this)[numDynamicFields() - 1u]", "? (*this)[numDynamicFields() - 1u]")),
    m("pk-size-first", I, ("? StaticTailSize<Ts...>::value + (*this)[numDynamicFields() - 1u]", "? StaticTailSize<Ts...>::value + (*this)[0u]")),
    m("pk-off-index", I, ("                >::size() - 1u]\n               + TemplateInst", "                >::size() - 1u + (I > 4u)]\n               + TemplateInst"),
      ("        return (*this)[\n", "        return (I == 4u ? 4u : 0u) + (*this)[\n")),
    m("pk-valid-strict", I, (VALID, VALID.replace("size <= F", "size < F"))),
    m("pk-valid-or", I, (VALID, VALID.replace("max)\n               && ", "max)\n               || "))),
    m("pk-valid-bytes", I, (VALID, VALID.replace("::max)", "::maxBytes)"))),
    m("pk-min-bytes", I, ("    constexpr static std::size_t minBytes() { return min_ * sizeof(valueType); }", "    constexpr static std::size_t minBytes() { return min_; }")),
    m("pk-max-wraps", I, ("            (FieldTraits<T>::maxBytes > std::numeric_limits<std::size_t>::max()\n", "            (FieldTraits<T>::maxBytes == std::numeric_limits<std::size_t>::max()\n")),
    m("pk-copy-size", D, (CC, CC.replace("copy.m_data.get(), copy.size());", "copy.m_data.get(), copy.size() - 1u);"))),
    m("pk-copy-alloc", D, (CC, CC.replace("::operator new(copy.size())", "::operator new(copy.minSizeInBytes())"))),
    m("pk-copy-unsized", D, (CC, CC.replace("        , m_sizes(copy.m_sizes)\n", "        , m_sizes(typename DynamicPackingInfo<Ts...>::AccumArrayType(copy.m_sizes))\n").replace("        if (m_data)\n    ", ""))),
    m("pk-asg-sizes-first", D, (ASGC, "        m_sizes = copy.m_sizes;\n" + ASGC.replace("        m_sizes = copy.m_sizes;\n", ""))),
    m("pk-asg-keep-buffer", D, (ASGC, ASGC.replace("size() != copy.size()", "size() > copy.size()"))),
    m("pk-asg-keep-large", D, (ASGC, ASGC.replace("            if (!m_data || (size() != copy.size()))\n", "            if (!m_data)\n"))),
    m("pk-asg-no-sizes", D, (ASGC, ASGC.replace("        m_sizes = copy.m_sizes;\n", ""))),
    m("pk-asg-null-kept", D, (ASGC, ASGC.replace("            m_data.reset();\n", "            return *this;\n"))),
    m("pk-asg-leak", D, (ASGC, ASGC.replace("m_data.reset(::operator", "m_data.release(), m_data.reset(::operator"))),
    m("pk-move-copy-of-pointer", D, ("        : m_data(std::move(move.m_data))\n", "        : m_data(move.m_data.get())\n")),
    m("pk-move-no-sizes", D, ("        m_data = std::move(move.m_data);\n        m_sizes = std::move(move.m_sizes);\n", "        m_data = std::move(move.m_data);\n")),
    m("pk-ctor-small", D, ("                  DynamicPackingInfo<Ts...>::sizeInBytes(\n                      std::forward<Args>(args)...))))", "                  DynamicPackingInfo<Ts...>::maxSizeInBytes())))")),
    m("pk-ref-bytes", R, (VAL, "        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));\n")),
    m("pk-ref-aligned", R, (VAL, VAL.replace("std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T))", "*static_cast<T *>(this->m_unalignedData) = value"))),
    m("pk-ref-get-aligned", R, ("        typename std::remove_cv<T>::type v;\n", "        if (sizeof(T) == 4u) return *static_cast<T const *>(m_unalignedData);\n        typename std::remove_cv<T>::type v;\n")),
    m("pk-ref-short", R, ("std::memcpy(std::addressof(v), m_unalignedData, sizeof(T))", "std::memcpy(std::addressof(v), m_unalignedData, sizeof(T) > 8u ? 8u : sizeof(T))")),
    m("pk-inc-bytes", P, (INC, INC.replace("sizeof(T)", "1u"))),
    m("pk-dec-aligned", P, ("        m_ptr = ptrSub(m_ptr, sizeof(T));\n", "        m_ptr = ptrSub(m_ptr, sizeof(T) + sizeof(T) % 4u);\n")),
    m("pk-post-new", P, (POST, POST.replace("        operator++();\n        return tmp;\n", "        return ++tmp;\n"))),
    m("pk-at-bytes", P, (AT, AT.replace("sizeof(T) * n", "n"))),
    m("pk-less-equal", P, ("{ return lhs.m_ptr < rhs.m_ptr; }", "{ return lhs.m_ptr <= rhs.m_ptr; }")),
    m("pk-greater-swapped", P, ("{ return lhs.m_ptr > rhs.m_ptr; }", "{ return lhs.m_ptr < rhs.m_ptr; }")),
    m("pk-end", K, ("    static void * endVoidPtr(void * const data) noexcept\n    { return ptrAdd(data, size()); }", "    static void * endVoidPtr(void * const data) noexcept\n    { return ptrAdd(data, size() - 1u); }")),
]

EQUIV = [
    m("pk-eq-tail", I, (TAIL, TAIL.replace("size() <= 0u", "size() == 0u"))),
    m("pk-eq-populate", I, (POPV, "        accum = size * sizeof(T) + accum;\n        *ptr = accum;\n")),
    m("pk-eq-valid", I, (VALID, "        if (size < FieldTraits<T>::min)\n            return false;\n        if (size > FieldTraits<T>::max)\n            return false;\n        return ValidSizes<Ts...>::isValid(std::forward<Args>(args)...);\n")),
    m("pk-eq-size", I, ("        return sizeof(T) * size\n               + AccumSize<Ts...>::value(std::forward<Args>(args)...);", "        return AccumSize<Ts...>::value(std::forward<Args>(args)...)\n               + size * sizeof(T);")),
    m("pk-eq-asg", D, (ASGC, """        if (copy.m_data) {
            auto const n = copy.size();
            if (m_data && size() == n) {
                std::memmove(m_data.get(), copy.m_data.get(), n);
            } else {
                DataPtr d(::operator new(n));
                std::memcpy(d.get(), copy.m_data.get(), n);
                m_data = std::move(d);
            }
        } else {
            m_data = nullptr;
        }
        m_sizes = copy.m_sizes;
""")),
    m("pk-eq-asg-fresh", D, (ASGC, "        type tmp(copy);\n        m_data.swap(tmp.m_data);\n        m_sizes = tmp.m_sizes;\n")),
    m("pk-eq-copy", D, (CC, CC.replace("        if (m_data)\n", "        if (copy.m_data)\n"))),
    m("pk-eq-copy-body", D, (CC, """        : m_data(nullptr)
        , m_sizes(copy.m_sizes)
    {
        if (!copy.m_data)
            return;
        m_data.reset(::operator new(m_sizes.structSizeInBytes()));
        std::memcpy(m_data.get(), copy.m_data.get(), m_sizes.structSizeInBytes());
""")),
    m("pk-eq-ref", R, (VAL, "        typename std::remove_cv<T>::type const value(std::forward<T_>(v));\n        std::memmove(this->m_unalignedData, std::addressof(value), sizeof value);\n")),
    m("pk-eq-inc", P, (INC, "    type & operator++() noexcept { return (*this) += 1u; }\n")),
    m("pk-eq-at", P, (AT, "    reference operator[](difference_type const n) const noexcept { return *((*this) + n); }\n")),
    m("pk-eq-bytes-loop", R, (VAL, "        T const & value = static_cast<T const &>(std::forward<T_>(v));\n        auto const s = reinterpret_cast<unsigned char const *>(std::addressof(value));\n        auto const d = static_cast<unsigned char *>(this->m_unalignedData);\n        for (std::size_t i = 0u; i < sizeof(T); ++i)\n            d[i] = s[i];\n")),
]
