#include "vp.h"
#include <ostream>
#include <sharemind/StringView.h>
// character traits of which nothing is known
extern "C" {
bool vp_sv_eq(char const *, char const *) noexcept;
int vp_sv_compare(char const *, char const *, std::size_t) noexcept;
char const * vp_sv_find(char const *, std::size_t, char const *) noexcept;
std::size_t vp_sv_length(char const *) noexcept;
void vp_sv_copy(char *, char const *, std::size_t) noexcept;
}
struct Tr: std::char_traits<char> {
    static bool eq(char const & a, char const & b) noexcept { return vp_sv_eq(&a, &b); }
    static int compare(char const * a, char const * b, std::size_t n) noexcept { return vp_sv_compare(a, b, n); }
    static char const * find(char const * a, std::size_t n, char const & c) noexcept { return vp_sv_find(a, n, &c); }
    static std::size_t length(char const * a) noexcept { return vp_sv_length(a); }
    static char * copy(char * d, char const * s, std::size_t n) noexcept { vp_sv_copy(d, s, n); return d; }
};
using SV = sharemind::BasicStringView<char, Tr>;
using S = std::size_t;
using C = char const *;
VP_ENTRY C vp_e_SV_data(SV const & s) { return s.data(); }
VP_ENTRY S vp_e_SV_size(SV const & s) { return s.size(); }
VP_ENTRY S vp_e_SV_length(SV const & s) { return s.length(); }
VP_ENTRY bool vp_e_SV_empty(SV const & s) { return s.empty(); }
VP_ENTRY C vp_e_SV_begin(SV const & s) { return s.begin(); }
VP_ENTRY C vp_e_SV_end(SV const & s) { return s.end(); }
VP_ENTRY C vp_e_SV_rbegin(SV const & s) { return s.rbegin().base(); }
VP_ENTRY C vp_e_SV_rend(SV const & s) { return s.rend().base(); }
VP_ENTRY C vp_e_SV_at(SV const & s, S n) { return &s.at(n); }
VP_ENTRY C vp_e_SV_index(SV const & s, S n) { return &s[n]; }
VP_ENTRY C vp_e_SV_front(SV const & s) { return &s.front(); }
VP_ENTRY C vp_e_SV_back(SV const & s) { return &s.back(); }
VP_ENTRY void vp_e_SV_substr(void * o, SV const & s, S p, S n) { new (o) SV(s.substr(p, n)); }
VP_ENTRY void vp_e_SV_left(void * o, SV const & s, S n) { new (o) SV(s.left(n)); }
VP_ENTRY void vp_e_SV_right(void * o, SV const & s, S n) { new (o) SV(s.right(n)); }
VP_ENTRY void vp_e_SV_leftClipped(void * o, SV const & s, S n) { new (o) SV(s.leftClipped(n)); }
VP_ENTRY void vp_e_SV_rightClipped(void * o, SV const & s, S n) { new (o) SV(s.rightClipped(n)); }
VP_ENTRY void vp_e_SV_clipped(void * o, SV const & s, S l, S r) { new (o) SV(s.clipped(l, r)); }
VP_ENTRY void vp_e_SV_removePrefix(SV & s, S n) { s.removePrefix(n); }
VP_ENTRY void vp_e_SV_removeSuffix(SV & s, S n) { s.removeSuffix(n); }
VP_ENTRY void vp_e_SV_swap(SV & a, SV & b) { a.swap(b); }
VP_ENTRY S vp_e_SV_copy(SV const & s, char * d, S n, S p) { return s.copy(d, n, p); }
VP_ENTRY void vp_e_SV_ctorStr(void * o, std::basic_string<char, Tr> const & s) { new (o) SV(s); }
VP_ENTRY void vp_e_SV_ctorC(void * o, C s) { new (o) SV(s); }

VP_ENTRY int vp_e_SV_cmp(SV const & s, SV const & o) { return s.compare(o); }
VP_ENTRY int vp_e_SV_cmpN(SV const & s, C o, S n) { return s.compare(o, n); }
VP_ENTRY int vp_e_SV_cmpC(SV const & s, C o) { return s.compare(o); }
VP_ENTRY int vp_e_SV_cmpPN(SV const & s, S p, S n, SV const & o) { return s.compare(p, n, o); }
VP_ENTRY int vp_e_SV_cmpPNPN(SV const & s, S p, S n, SV const & o, S p2, S n2) { return s.compare(p, n, o, p2, n2); }
VP_ENTRY int vp_e_SV_cmpPNC(SV const & s, S p, S n, C o) { return s.compare(p, n, o); }
VP_ENTRY int vp_e_SV_cmpPNCN(SV const & s, S p, S n, C o, S n2) { return s.compare(p, n, o, n2); }
VP_ENTRY bool vp_e_SV_startsWith(SV const & s, SV const & o) { return s.startsWith(o); }
VP_ENTRY bool vp_e_SV_startsWithN(SV const & s, C o, S n) { return s.startsWith(o, n); }
VP_ENTRY bool vp_e_SV_startsWithC(SV const & s, C o) { return s.startsWith(o); }
VP_ENTRY bool vp_e_SV_startsWithc(SV const & s, char const & c) { return s.startsWith(c); }
VP_ENTRY bool vp_e_SV_endsWith(SV const & s, SV const & o) { return s.endsWith(o); }
VP_ENTRY bool vp_e_SV_endsWithN(SV const & s, C o, S n) { return s.endsWith(o, n); }
VP_ENTRY bool vp_e_SV_endsWithC(SV const & s, C o) { return s.endsWith(o); }
VP_ENTRY bool vp_e_SV_endsWithc(SV const & s, char const & c) { return s.endsWith(c); }
VP_ENTRY bool vp_e_SV_eq(SV const & s, SV const & o) { return s == o; }
VP_ENTRY bool vp_e_SV_ne(SV const & s, SV const & o) { return s != o; }
VP_ENTRY bool vp_e_SV_lt(SV const & s, SV const & o) { return s < o; }
VP_ENTRY bool vp_e_SV_le(SV const & s, SV const & o) { return s <= o; }
VP_ENTRY bool vp_e_SV_gt(SV const & s, SV const & o) { return s > o; }
VP_ENTRY bool vp_e_SV_ge(SV const & s, SV const & o) { return s >= o; }

#define SEARCH(name) \
    VP_ENTRY S vp_e_SV_##name##_c(SV const & s, char const & c, S p) { return s.name(c, p); } \
    VP_ENTRY S vp_e_SV_##name##_c0(SV const & s, char const & c) { return s.name(c); } \
    VP_ENTRY S vp_e_SV_##name##_n(SV const & s, C o, S p, S n) { return s.name(o, p, n); } \
    VP_ENTRY S vp_e_SV_##name##_v(SV const & s, SV const & o, S p) { return s.name(o, p); } \
    VP_ENTRY S vp_e_SV_##name##_v0(SV const & s, SV const & o) { return s.name(o); } \
    VP_ENTRY S vp_e_SV_##name##_s(SV const & s, C o, S p) { return s.name(o, p); } \
    VP_ENTRY S vp_e_SV_##name##_s0(SV const & s, C o) { return s.name(o); }
SEARCH(find)
SEARCH(rfind)
SEARCH(findFirstOf)
SEARCH(findFirstNotOf)
SEARCH(findLastOf)
SEARCH(findLastNotOf)
#define TRIM(name) \
    VP_ENTRY void vp_e_SV_##name##_c(void * r, SV const & s, char const & c) { new (r) SV(s.name(c)); } \
    VP_ENTRY void vp_e_SV_##name##_n(void * r, SV const & s, C o, S n) { new (r) SV(s.name(o, n)); } \
    VP_ENTRY void vp_e_SV_##name##_v(void * r, SV const & s, SV const & o) { new (r) SV(s.name(o)); } \
    VP_ENTRY void vp_e_SV_##name##_s(void * r, SV const & s, C o) { new (r) SV(s.name(o)); }
TRIM(leftTrimmed)
TRIM(rightTrimmed)
TRIM(trimmed)
