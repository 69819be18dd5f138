#include "vp.h"
#include <sharemind/Split.h>
using namespace sharemind;
extern "C" {
bool vp_delimiter(void const *) noexcept;
void vp_piece(void const *, void const *) noexcept;
}
struct Wide { long a, b, c; };
template <typename T> struct Delim { bool operator()(T const & c) const noexcept { return vp_delimiter(&c); } };
struct Piece { template <typename T> void operator()(T const * a, T const * b) const noexcept { vp_piece(a, b); } };
#define ONE(n) \
    VP_ENTRY void vp_e_split_c_##n(char const * p) { split(p, p + n, Delim<char>(), Piece()); } \
    VP_ENTRY void vp_e_split_w_##n(Wide const * p) { split(p, p + n, Delim<Wide>(), Piece()); } \
    VP_ENTRY void vp_e_nonempty_c_##n(char const * p) { splitNoAllowEmpty(p, p + n, Delim<char>(), Piece()); } \
    VP_ENTRY void vp_e_nonempty_w_##n(Wide const * p) { splitNoAllowEmpty(p, p + n, Delim<Wide>(), Piece()); }
ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6)
