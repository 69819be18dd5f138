N = "NetworkMessage.h"


def m(name, *edits):
    return (name, ("C15",), [(N, a, b) for a, b in edits])


MUTANTS = [
    m("nm-bytes-wrap", ("    if (this->size - m_offset < size)\n        return false;\n\n    std::memcpy(buffer", "    if (this->size < m_offset + size)\n        return false;\n\n    std::memcpy(buffer")),
    m("nm-read-le", ("    if (this->size - m_offset < sizeof(T))\n", "    if (this->size - m_offset <= sizeof(T))\n")),
    m("nm-read-short", ("    if (this->size - m_offset < sizeof(T))\n", "    if (this->size - m_offset + 1u < sizeof(T))\n")),
    m("nm-read-noadvance", ("        m_offset += sizeof(T);\n", "        if (sizeof(T) > 1u)\n            m_offset += sizeof(T);\n")),
    m("nm-read-start", ("std::memcpy(&val, ptrAdd(this->data, m_offset), sizeof(T));", "std::memcpy(&val, this->data, sizeof(T));")),
    m("nm-string-rollback", ("    if (length > this->size - m_offset) {\n        m_offset = rollbackOffset;\n", "    if (length > this->size - m_offset) {\n")),
    m("nm-string-rollback2", ("    } catch (...) {\n        m_offset = rollbackOffset;\n", "    } catch (...) {\n")),
    m("nm-string-bound", ("    if (length > this->size - m_offset) {", "    if (length > this->size - rollbackOffset) {")),
    m("nm-string-end", ("val.assign(s, s + length);", "val.assign(s, s + (this->size - m_offset));")),
    m("nm-string-advance", ("    m_offset += length;\n    return true;", "    return true;")),
    m("nm-string-empty", ("    if (length <= 0u) {\n        val.clear();\n", "    if (length <= 1u) {\n        val.clear();\n")),
    m("nm-bool-any", ("        default:\n            m_offset = rollbackOffset;\n            return false;\n", "        default:\n            val = true;\n            return true;\n")),
    m("nm-bool-rollback", ("        default:\n            m_offset = rollbackOffset;\n", "        default:\n")),
    m("nm-size-fits", ("return std::numeric_limits<T>::max() >= value;", "return std::numeric_limits<T>::max() >= static_cast<T>(value);")),
    m("nm-size-fits-gt", ("return std::numeric_limits<T>::max() >= value;", "return std::numeric_limits<T>::max() > value;")),
    m("nm-size-norollback", ("            m_offset -= sizeof(SerializedSizeType); // Rollback\n            throw OverflowException();", "            throw OverflowException();")),
    m("nm-array-overflow", ("    if (std::numeric_limits<S>::max() / sizeof(T) < size)\n        return false;\n", "")),
    m("nm-array-count", ("    if (getRemainingSize() < sizeInBytes)", "    if (getRemainingSize() < size)")),
    m("nm-array-advance", ("    std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);\n    m_offset += sizeInBytes;", "    std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);\n    m_offset += size;")),
    m("nm-seek", ("    if (pos >= size)\n        return false;\n", "    if (pos > size + 1u)\n        return false;\n")),
    m("nm-remaining", ("{ return size - m_offset; }", "{ return m_offset ? size - m_offset - 1u : size; }")),
    m("nm-w-array-overflow", ("    if (spaceLeft() / sizeof(T) < size)\n        throw MessageLengthError();\n    auto const", "    auto const")),
    m("nm-w-array-overflow2", ("        bytesLeft -= sizeof(SerializedSizeType);\n", "")),
    m("nm-w-array-overflow3", ("        if (bytesLeft / sizeof(T) < size)\n", "        if (bytesLeft < size)\n")),
    m("nm-w-sarray-noprefix", ("    addBytes(sizeof(SerializedSizeType) + arraySizeInBytes);\n", "    addBytes(arraySizeInBytes);\n")),
    m("nm-w-sarray-bytes", ("hostToSharemindNetOrder(static_cast<SerializedSizeType>(size)));\n    pokeBytes(&", "hostToSharemindNetOrder(static_cast<SerializedSizeType>(arraySizeInBytes)));\n    pokeBytes(&")),
    m("nm-w-sarray-empty", ("    if (size <= 0)\n        return writeSize<SerializedSizeType, SizeType>(size);\n", "    if (size <= 0)\n        return;\n")),
    m("nm-w-order", ("    pokeBytes(&serializedSize, sizeof(serializedSize));\n    pokeBytes(data, arraySizeInBytes);\n", "    pokeBytes(data, arraySizeInBytes);\n    pokeBytes(&serializedSize, sizeof(serializedSize));\n")),
    m("nm-w-size-first", ("    if (!newData)\n        throw std::bad_alloc{};\n\n    this->data = newData;\n    this->size = newSize;", "    this->size = newSize;\n    if (!newData)\n        throw std::bad_alloc{};\n\n    this->data = newData;")),
    m("nm-w-null", ("    if (!newData)\n        throw std::bad_alloc{};\n\n    this->data = newData;", "    this->data = newData;\n    if (!newData)\n        throw std::bad_alloc{};\n")),
    m("nm-w-poke", ("data, bytes);\n    m_offset += bytes;\n", "data, bytes);\n    m_offset = this->size;\n")),
    m("nm-w-bytes-limit", ("    if (bytes > spaceLeft())\n", "    if (bytes >= spaceLeft() / 2u)\n")),
    m("nm-w-raw", ("!std::is_base_of<std::string, std::decay_t<T> >::value\n                && ", "")),
    m("nm-w-cstr", ("{ writeSizeAndArray(val, std::strlen(val)); }", "{ writeSizeAndArray(val, std::strlen(val) + 1u); }")),
    m("nm-w-bool", ("static_cast<std::uint8_t>(val ? 1u : 0u)", "static_cast<std::uint8_t>(val ? 0xffu : 0u)")),
    m("nm-dtor", ("    { std::free(const_cast<void *>(this->data)); }", "    { if (m_offset) std::free(const_cast<void *>(this->data)); }")),
]
EQUIV = [
    m("nm-eq-remaining", ("    if (this->size - m_offset < size)\n        return false;\n\n    std::memcpy(buffer", "    if (size > getRemainingSize())\n        return false;\n\n    std::memcpy(buffer")),
    m("nm-eq-read-bytes", ("    if (this->size - m_offset < sizeof(T))\n        return false;\n\n    if (sizeof(T) > 0u) {\n        std::memcpy(&val, ptrAdd(this->data, m_offset), sizeof(T));\n        m_offset += sizeof(T);\n    }\n\n    return true;", "    return readBytes(&val, sizeof(T));")),
    m("nm-eq-string-peek", ("    if (length <= 0u) {\n        val.clear();\n        return true;\n    }\n", "")),
    m("nm-eq-string-ptr", ("    auto const s = static_cast<char const *>(this->data) + m_offset;", "    auto const s = static_cast<char const *>(getPtr());")),
    m("nm-eq-assign-len", ("val.assign(s, s + length);", "val.assign(s, length);")),
    m("nm-eq-bool-if", ("    switch (temp) {\n        case 0u:\n            val = false;\n            return true;\n        case 1u:\n            val = true;\n            return true;\n        default:\n            m_offset = rollbackOffset;\n            return false;\n    }", "    if (temp > 1u) {\n        m_offset = rollbackOffset;\n        return false;\n    }\n    val = (temp != 0u);\n    return true;")),
    m("nm-eq-array", ("    if (std::numeric_limits<S>::max() / sizeof(T) < size)\n        return false;\n    auto const sizeInBytes(sizeof(T) * size);\n    if (getRemainingSize() < sizeInBytes)\n        return false;\n", "    if (getRemainingSize() / sizeof(T) < size)\n        return false;\n    auto const sizeInBytes(sizeof(T) * size);\n")),
    m("nm-eq-array-bytes", ("    std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);\n    m_offset += sizeInBytes;\n    return true;", "    return readBytes(data, sizeInBytes);")),
    m("nm-eq-warray", ("    auto const arraySizeInBytes(size * sizeof(T));\n    addBytes(arraySizeInBytes);\n    pokeBytes(data, arraySizeInBytes);\n", "    writeBytes(data, size * sizeof(T));\n")),
    m("nm-eq-poke", ("    std::memcpy(ptrAdd(const_cast<void *>(this->data), m_offset), data, bytes);\n    m_offset += bytes;", "    auto const end = m_offset + bytes;\n    std::memcpy(ptrAdd(const_cast<void *>(this->data), end - bytes), data, bytes);\n    m_offset = end;")),
    m("nm-eq-limit", ("    if (bytes > spaceLeft())\n        throw MessageLengthError{};\n", "    if (m_offset + bytes < m_offset)\n        throw MessageLengthError{};\n")),
    m("nm-eq-add", ("    std::size_t const newSize = this->size + bytes;", "    std::size_t const newSize = m_offset + bytes;")),
]
