// floating-point engines of user-defined real types
#include "ref.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
namespace br = boost::random; namespace mp = boost::multiprecision;
typedef mp::cpp_bin_float_quad Quad; typedef mp::number<mp::cpp_bin_float<40>, mp::et_on> DeciE;
#define SWC01(nm, T, w, s, r, tiny) reg<br::subtract_with_carry_01_engine<T,w,s,r>, uint32_t, w, RefSwc01<w,s,r,uint32_t>>(nm, r, tiny, (r)+1)
#define LF01(nm, T, w, p, q, tiny) reg<br::lagged_fibonacci_01_engine<T,w,p,q>, uint32_t, w, RefLf01<w,p,q,uint32_t>>(nm, p, tiny, (p)+1)
void reg_e() {
    SWC01("swc01<quad,3,1,3>", Quad, 3, 1, 3, true);
    SWC01("swc01<quad,48,10,24>", Quad, 48, 10, 24, false);
    SWC01("swc01<40 digits,33,3,7>", DeciE, 33, 3, 7, false);
    LF01("lf01<quad,4,3,1>", Quad, 4, 3, 1, true);
    LF01("lf01<quad,60,6,1>", Quad, 60, 6, 1, false);
    LF01("lf01<40 digits,48,55,24>", DeciE, 48, 55, 24, false);
    reg<br::discard_block_engine<br::subtract_with_carry_01_engine<Quad,24,3,7>,11,4>, uint32_t, 24, RefDiscardBlock<RefSwc01<24,3,7,uint32_t>,11,4>>("discard_block<swc01<quad,24,3,7>,11,4>", 4, false, 10);
}
