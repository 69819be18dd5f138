U, X = "uint_t.h", "uint128_t.h"
P = ["C24"]
MUTANTS = [
    ("wi-carry", P, [(U, "carry = temp < limit || (carry && temp == limit);", "carry = temp < limit;")]),
    ("wi-carry2", P, [(U, "carry = temp < limit || (carry && temp == limit);", "carry = temp < limit || temp == limit;")]),
    ("wi-carry3", P, [(U, "const block_t limit = std::min(x.block(i), y.block(i));", "const block_t limit = x.block(i);"), (U, "carry = temp < limit || (carry && temp == limit);", "carry = temp < limit;")]),
    ("wi-borrow", P, [(U, "borrow = y.block(i) > temp || (borrow && x.block(i) == 0);", "borrow = y.block(i) > temp;")]),
    ("wi-borrow2", P, [(U, "borrow = y.block(i) > temp || (borrow && x.block(i) == 0);", "borrow = y.block(i) > x.block(i);")]),
    ("wi-add-mask", P, [(U, "carry && temp == limit);\n        }\n\n        result.clear_unused_bits_();", "carry && temp == limit);\n        }\n")]),
    ("wi-not-mask", P, [(U, "result.block(i) = ~x.block(i);\n\n        result.clear_unused_bits_();", "result.block(i) = ~x.block(i);\n")]),
    ("wi-inc", P, [(U, "carry = block(i) < carry;", "carry = block(i) == 1;")]),
    ("wi-dec", P, [(U, "borrow = borrow > temp;", "borrow = temp == 1;")]),
    ("wi-dec-mask", P, [(U, "borrow = borrow > temp;\n        }\n\n        clear_unused_bits_();", "borrow = borrow > temp;\n        }\n")]),
    ("wi-less", P, [(U, "if (x.block(i) > y.block(i)) return false;\n        }\n\n        return false;", "if (x.block(i) > y.block(i)) return false;\n        }\n\n        return true;")]),
    ("wi-less2", P, [(U, "if (x.block(i) > y.block(i)) return false;", "")]),
    ("wi-less3", P, [(U, "for (std::size_t i = num_of_blocks; i --> 0u; ) {\n            if (x", "for (std::size_t i = 0u; i < num_of_blocks; ++i) {\n            if (x")]),
    ("wi-eq", P, [(U, "for (std::size_t i = 0u; i < num_of_blocks; ++i)\n            if (x.block(i) != y", "for (std::size_t i = 1u; i < num_of_blocks || i == 1u; ++i)\n            if (x.block(i % num_of_blocks) != y"), (U, "!= y.block(i))\n                return false;", "!= y.block(i % num_of_blocks))\n                return false;")]),
    ("wi-null", P, [(U, "acc |= x.block(i);", "acc = x.block(i);")]),
    ("wi-shl-mask", P, [(U, "(x.block(i - blockShift - 1) >> (bits_in_block - bitShift));\n\n        result.clear_unused_bits_();", "(x.block(i - blockShift - 1) >> (bits_in_block - bitShift));\n")]),
    ("wi-shl-low", P, [(U, "for (std::size_t i = blockShift + 1; i < num_of_blocks; ++ i)", "for (std::size_t i = blockShift + 1; i + 1 < num_of_blocks; ++ i)")]),
    ("wi-shr-keep", P, [(U, "result.block(blockKeep) = x.most_significant_block() >> bitShift;", "")]),
    ("wi-shblocks", P, [(U, "for (std::size_t i = num_of_blocks - offset; i < num_of_blocks; ++i)\n            block(i) = 0;", "")]),
    ("wi-shlblocks-mask", P, [(U, "            block(i) = 0;\n        clear_unused_bits_();", "            block(i) = 0;")]),
    ("wi-flip", P, [(U, "m_block ^= m_mask", "m_block |= m_mask")]),
    ("wi-refassign", P, [(U, "x ? set_bit_ () : reset_bit_ ()", "if (x) set_bit_ ()")]),
    ("wi-ctor-mask", P, [(U, "copy_bits_<T>::impl(*this, val);\n            clear", "copy_bits_<T>::impl(*this, val);\n            //"), ] if 0 else [(U, "copy_bits_<T>::impl(*this, val);\n        clear_unused_bits_ ();", "copy_bits_<T>::impl(*this, val);")]),
    ("wi-ctor-fill", P, [(U, "std::fill(begin(), end(), block_t(0));\n        copy_bits_", "copy_bits_")]),
    ("wi-other-fill", P, [(U, "std::size_t const n = std::min(s1, s2);", "std::size_t const n = std::min(s1, s2) / 2u;")]),
    ("wi-demote", P, [(U, "        T out = 0;\n        // TODO: can be optimized\n        for (std::size_t i = num_of_blocks; i --> 0u; ) {", "        T out = 0;\n        // TODO: can be optimized\n        for (std::size_t i = num_of_blocks; i --> 1u; ) {")]),
    ("wi-as64", P, [(U, "j < s; ++i, j += bits_in_block)", "j + bits_in_block < s; ++i, j += bits_in_block)")]),
    ("wi-x-add", P, [(X, "static_cast<std::uint64_t>(lower < x.m_lower)", "static_cast<std::uint64_t>(lower <= x.m_lower)")]),
    ("wi-x-neg", P, [(X, "x.m_lower > 0", "x.m_lower > 1")]),
    ("wi-x-shr", P, [(X, "return uint128_t (0, x.m_upper >> (shift - 64));", "return uint128_t (x.m_upper >> 63, x.m_upper >> (shift - 64));")]),
    ("wi-x-lt", P, [(X, "(x.m_upper == y.m_upper && x.m_lower < y.m_lower)", "x.m_lower < y.m_lower")]),
    ("wi-x-assign", P, [(X, "    uint128_t& operator = (T rhs) {\n        m_upper = 0;", "    uint128_t& operator = (T rhs) {")]),
]
EQUIV = [
    ("wi-eq-add", P, [(U, "const block_t limit = std::min(x.block(i), y.block(i));\n            result.block(i) = temp;\n            carry = temp < limit || (carry && temp == limit);", "result.block(i) = temp;\n            carry = carry ? temp <= x.block(i) : temp < x.block(i);")]),
    ("wi-eq-sub", P, [(U, "const block_t temp = x.block(i) - borrow;\n            borrow = y.block(i) > temp || (borrow && x.block(i) == 0);\n            result.block(i) = temp - y.block(i);", "const block_t a = x.block(i), b = y.block(i);\n            result.block(i) = a - b - borrow;\n            borrow = a < b || (a == b && borrow);")]),
    ("wi-eq-inc", P, [(U, "block(i) += carry;\n            carry = block(i) < carry;", "block_t const old = block(i);\n            block(i) = old + carry;\n            carry = block(i) < old;")]),
    ("wi-eq-less", P, [(U, "if (x.block(i) < y.block(i)) return true;\n            if (x.block(i) > y.block(i)) return false;", "if (x.block(i) != y.block(i))\n                return x.block(i) < y.block(i);")]),
    ("wi-eq-eq", P, [(U, "            if (x.block(i) != y.block(i))\n                return false;\n        return true;", "            acc |= block_t(x.block(i) ^ y.block(i));\n        return !acc;"), (U, "    friend bool operator == (uint_t x, uint_t y) {\n", "    friend bool operator == (uint_t x, uint_t y) {\n        block_t acc = 0;\n")]),
    ("wi-eq-xor", P, [(U, "for (std::size_t i = 0u; i < num_of_blocks; ++i)\n            result.block(i) = x.block(i) ^ y.block(i);", "block_t const * j = y.begin();\n        std::transform(x.begin(), x.end(), j, result.begin(), [](block_t a, block_t b) { return block_t(a ^ b); });")]),
    ("wi-eq-shl", P, [(U, "for (std::size_t i = 0u; i < blockShift; ++ i)\n            result.block(i) = 0;\n\n        result.block(blockShift) = x", "result.block(blockShift) = x")]),
    ("wi-eq-dec", P, [(U, "const block_t temp = block(i);\n            block(i) -= borrow;\n            borrow = borrow > temp;", "if (!borrow) break;\n            borrow = block(i) == 0;\n            --block(i);")]),
    ("wi-eq-x-add", P, [(X, "std::uint64_t const overflow = static_cast<std::uint64_t>(lower < x.m_lower);", "std::uint64_t const overflow = lower < y.m_lower ? 1u : 0u;")]),
    ("wi-eq-x-lt", P, [(X, "return x.m_upper < y.m_upper || (x.m_upper == y.m_upper && x.m_lower < y.m_lower);", "return x.m_upper != y.m_upper ? x.m_upper < y.m_upper : x.m_lower < y.m_lower;")]),
    ("wi-eq-x-sub", P, [(X, "return uint128_t (upper - overflow, lower);", "return x + (- y);"), (X, "    std::uint64_t const upper = x.m_upper - y.m_upper;\n    std::uint64_t const lower = x.m_lower - y.m_lower;\n    std::uint64_t const overflow = static_cast<std::uint64_t>(lower > x.m_lower);\n", "")]),
    ("wi-eq-x-neg", P, [(X, "return uint128_t (- x.m_upper - static_cast<std::uint64_t>(x.m_lower > 0), - x.m_lower);", "return uint128_t (~x.m_upper + (x.m_lower == 0), ~x.m_lower + 1u);")]),
]
