SP = "Split.h"
P = ["C23"]
MUTANTS = [
    ("sp-tail", P, [(SP, "        first = ++it;\n    }\n    matchAction(first, last);\n", "        first = ++it;\n    }\n")]),
    ("sp-tail-if", P, [(SP, "    }\n    matchAction(first, last);\n", "    }\n    if (first != last)\n        matchAction(first, last);\n")]),
    ("sp-incl", P, [(SP, "        matchAction(first, it);\n        first = ++it;\n    }\n    matchAction", "        ++it;\n        matchAction(first, it);\n        first = it;\n    }\n    matchAction")]),
    ("sp-noskip", P, [(SP, "        matchAction(first, it);\n        first = ++it;\n    }\n    matchAction", "        matchAction(first, it);\n        first = it;\n        if (++it == last) break;\n        first = it;\n    }\n    matchAction")]),
    ("sp-noreturn", P, [(SP, "        while (!delimPredicate(*it)) {\n            if (++it == last) {\n                matchAction(first, it);\n                return;", "        while (!delimPredicate(*it)) {\n            if (++it == last) {\n                return;")]),
    ("sp-ne-skip", P, [(SP, "        } while (!delimPredicate(*it));\n        matchAction(first, it);\n        first = ++it;", "        } while (!delimPredicate(*it));\n        matchAction(first, it);\n        first = it;\n        if (++first != last)\n            ++first;")]),
    ("sp-ne-over", P, [(SP, "        for (;; ++first) { // Skip delimeters\n            if (first == last)\n                return;\n            if (!delimPredicate(*first))\n                break;", "        for (;; ++first) { // Skip delimeters\n            if (!delimPredicate(*first))\n                break;\n            if (first == last)\n                return;")]),
    ("sp-ne-last", P, [(SP, "            if (++it == last) {\n                matchAction(first, it);\n                return;\n            }\n        } while", "            if (++it == last)\n                return;\n        } while")]),
    ("sp-endless", P, [(SP, "        matchAction(first, it);\n        first = ++it;\n    }\n    matchAction", "        matchAction(first, it);\n        first = it;\n    }\n    matchAction")]),
]
EQUIV = [
    ("sp-eq-for", P, [(SP, "    while (first != last) {\n        InputIterator it(first);\n        while (!delimPredicate(*it)) {\n            if (++it == last) {\n                matchAction(first, it);\n                return;\n            }\n        }\n        matchAction(first, it);\n        first = ++it;\n    }\n    matchAction(first, last);", "    InputIterator it(first);\n    for (; it != last; ++it) {\n        if (!delimPredicate(*it))\n            continue;\n        matchAction(first, it);\n        first = it;\n        ++first;\n    }\n    matchAction(first, last);")]),
    ("sp-eq-ne", P, [(SP, "        for (;; ++first) { // Skip delimeters\n            if (first == last)\n                return;\n            if (!delimPredicate(*first))\n                break;\n        };", "        while (first != last && delimPredicate(*first))\n            ++first;\n        if (first == last)\n            return;")]),
    ("sp-eq-ne2", P, [(SP, "        do {\n            if (++it == last) {\n                matchAction(first, it);\n                return;\n            }\n        } while (!delimPredicate(*it));\n        matchAction(first, it);\n        first = ++it;", "        do {\n            ++it;\n        } while ((it != last) && !delimPredicate(*it));\n        matchAction(first, it);\n        first = it;")]),
]
