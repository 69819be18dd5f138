def m(name, f, *edits):
    return (name, ("C20",), [(f + ".h", a, b) for a, b in edits])


FT = """                Filter<T>::value,
                TemplatePrependTypes_t<
                    TemplateFilterTypes_t<Filter, Ts...>,
                    T
                >,
"""
MUTANTS = [
    m("tt-filter-append", "TemplateFilterTypes", ("#include \"TemplatePrependTypes.h\"", "#include \"TemplatePrependTypes.h\"\n#include \"TemplateAppendTypes.h\""), (FT, FT.replace("TemplatePrependTypes_t", "TemplateAppendTypes_t"))),
    m("tt-inverse-filter", "TemplateInverseTypeFilter", ("!Filter<T>::value", "Filter<T>::value")),
    m("tt-inverse-filter-values", "TemplateInverseFilter", ("!Filter<v>::value", "!!Filter<v>::value")),
    m("tt-all-last", "TemplateAll", ("template <bool ... vs> struct TemplateAll<true, vs...>: TemplateAll<vs...> {};", "template <bool ... vs> struct TemplateAll<true, vs...>: TemplateAll<vs...> {};\ntemplate <bool a, bool b, bool c> struct TemplateAll<true, a, b, c>: std::integral_constant<bool, a && b> {};")),
    m("tt-any-empty", "TemplateAny", ("struct TemplateAny<>: std::false_type", "struct TemplateAny<>: std::true_type")),
    m("tt-none-true", "TemplateNone", ("struct TemplateNone<true, vs...>: std::false_type {}", "struct TemplateNone<true, vs...>: TemplateNone<vs...> {}")),
    m("tt-suffix", "TemplateSuffixTypes", ("TemplateSubTypes<sizeof...(Ts) - N, N, Ts...>", "TemplateSubTypes<N, sizeof...(Ts) - N, Ts...>")),
    m("tt-count-once", "TemplateCountTypes", ("+ (std::is_same<Needle, T>::value ? 1u : 0u)", "|| std::is_same<Needle, T>::value")),
    m("tt-contains-twice", "TemplateContainsType", ("> 0u", "== 1u")),
    m("tt-common-skip", "TemplateCommonPrefixTypes", ("                    T2<T2Ts...>\n                >::type,\n                Accum<AccumTs...>\n", "                    T2<T2Ts...>\n                >::type,\n                Accum<>\n")),
    m("tt-common-three", "TemplateCommonPrefixTypes", ("                    T<Ts...>,\n                    T2<Ts2...>\n                >::type,\n                Ts3...\n", "                    T<Ts...>,\n                    T2<Ts2...>\n                >::type\n")),
    m("tt-cond-append-front", "TemplateCondAppendType", ("TemplateCondAppendType_t<Pred, Tmpl<TTs..., T>, Ts... >", "TemplateCondAppendType_t<Pred, Tmpl<T, TTs...>, Ts... >")),
    m("tt-append-front", "TemplateAppend", ("{ using type = Tmpl<Tvs..., vs...>; };", "{ using type = Tmpl<vs..., Tvs...>; };")),
    m("tt-instantiate-order", "TemplateInstantiateWithTypeParams", ("TemplateTypeList<TTs..., T2Ts...>", "TemplateTypeList<T2Ts..., TTs...>")),
    m("tt-copycv", "CopyCv", ("CopyConst<CopyVolatile_t<To, From>, From>", "OrConst<CopyVolatile_t<To, From>, From>")),
    m("tt-copyvolatile-const", "CopyVolatile", ("typename std::remove_volatile<To>::type", "typename std::remove_cv<To>::type")),
    m("tt-strip-const", "StripReferenceWrapper", ("{ using type = T &; }", "{ using type = T const &; }")),
    m("tt-swappable-or", "IsSwappable", ("                                     && decltype(test<U, T>(0))::value;", "                                     || decltype(test<U, T>(0))::value;")),
    m("tt-nothrow-one", "IsSwappable", ("            && noexcept(swap(std::declval<U>(), std::declval<T>()))>", "            >")),
    m("tt-pow2-zero", "IsPowerOfTwo", ("(x > 0) && ", "")),
    m("tt-pow2-negative", "IsPowerOfTwo", ("(x > 0)", "(x != 0)")),
    m("tt-function-volatile", "FunctionTraits", ("    : FunctionTraits<R(C volatile *,Args...)> {};", "    : FunctionTraits<R(C *,Args...)> {};")),
    m("tt-size-of", "SizeOfTypes", ("sizeof(T) + SizeOfTypes", "alignof(T) + SizeOfTypes")),
    m("tt-demote-equal", "integer_demotion", ("(size_in_bits<T>::value < size_in_bits<U>::value)", "(size_in_bits<T>::value <= size_in_bits<U>::value)")),
    m("tt-concept-not", "Concepts", ("                !Detail::ModelsConcept<\n                    Detail::Concepts::NormalizedConceptT<Cs>\n                >::value);", "                Detail::ModelsConcept<\n                    Detail::Concepts::NormalizedConceptT<Cs>\n                >::value);")),
    m("tt-concept-derived", "Concepts", ("std::is_base_of<B, A>::value", "std::is_base_of<A, B>::value")),
    m("tt-concept-comparable", "Concepts", ("            ConvertibleTo(decltype(std::declval<LHS const>() op r), bool), \\\n            ConvertibleTo(decltype(std::declval<LHS const>() \\\n                                   op std::declval<RHS const>()), bool) \\\n", "            ConvertibleTo(decltype(l op r), bool) \\\n")),
    m("tt-concept-hash", "Concepts", ("                    Same(decltype(std::declval<H const &>()(\n                                      std::declval<Key &>())),\n                         std::size_t),\n", "")),
    m("tt-detected-convertible", "Detected", ("std::is_convertible<DetectedT<Op, Args...>, To>", "std::is_convertible<To, DetectedT<Op, Args...> >")),
]
del MUTANTS[-2]      # (the other conditions imply it)

EQUIV = [
    m("tt-eq-filter", "TemplateFilterTypes", ("                Filter<T>::value,\n", "                (Filter<T>::value != false),\n")),
    m("tt-eq-all", "TemplateAll", ("template <bool ... vs> struct TemplateAll<true, vs...>: TemplateAll<vs...> {};", "template <bool v, bool ... vs> struct TemplateAll<v, vs...>\n    : std::integral_constant<bool, v && TemplateAll<vs...>::value> {};"), ("template <bool ... vs> struct TemplateAll<false, vs...>: std::false_type {};\n", "")),
    m("tt-eq-count", "TemplateCountTypes", ("        TemplateCountTypes<Needle, Ts...>::value\n        + (std::is_same<Needle, T>::value ? 1u : 0u)", "        static_cast<std::size_t>(std::is_same<Needle, T>::value)\n        + TemplateCountTypes<Needle, Ts...>::value")),
    m("tt-eq-pow2", "IsPowerOfTwo", ("{ return (x > 0) && ((x & (x - 1)) == 0); }", "{ return !(x <= 0) && !(x & (x - 1)); }")),
    m("tt-eq-get", "TemplateGetTypeParam", ("{ using type = typename TemplateGetTypeParam<I - 1u, Ts...>::type; };", "    : TemplateGetTypeParam<I - 1u, Ts...> {};")),
    m("tt-eq-copycv", "CopyCv", ("CopyConst<CopyVolatile_t<To, From>, From>", "CopyVolatile<CopyConst_t<To, From>, From>")),
]
