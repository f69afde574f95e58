#include "ref.hpp"
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/discard_block.hpp>
namespace br = boost::random;
#define COMMA ,
#define SWC(nm, T, w, s, r, tiny) reg<br::subtract_with_carry_engine<T,w,s,r>, T, 0, RefSwc<w,s,r,T>>(nm, r, tiny, (r)/8+1)
#define SWC01(nm, T, w, s, r, tiny) reg<br::subtract_with_carry_01_engine<T,w,s,r>, uint32_t, w, RefSwc01<w,s,r,uint32_t>>(nm, r, tiny, (r)/8+1)
template<class T, T a, T c, T m> using lcg = br::linear_congruential_engine<T, a, c, m>;
void reg_c() {
    SWC("swc<u32,3,1,3>", uint32_t, 3, 1, 3, true);
    SWC("swc<u32,2,2,5>", uint32_t, 2, 2, 5, true);
    SWC("swc<u64,3,3,4>", uint64_t, 3, 3, 4, true);
    SWC("swc<i32,3,2,3>", int32_t, 3, 2, 3, true);
    SWC("swc<u32,31,3,7>", uint32_t, 31, 3, 7, false);
    SWC("swc<u64,63,5,11>", uint64_t, 63, 5, 11, false);
    SWC01("swc01<float,3,1,3>", float, 3, 1, 3, true);
    SWC01("swc01<double,2,2,5>", double, 2, 2, 5, true);
    SWC01("swc01<long double,33,3,7>", long double, 33, 3, 7, false);
    reg<br::ranlux_base, uint32_t, 0, RefSwc<24,10,24,uint32_t>>("ranlux_base", 24, false, 4);
    reg<br::ranlux24_base, uint32_t, 0, RefSwc<24,10,24,uint32_t>>("ranlux24_base", 24, false, 4);
    reg<br::ranlux48_base, uint64_t, 0, RefSwc<48,5,12,uint64_t>>("ranlux48_base", 12, false, 3);
    reg<br::ranlux64_base, uint64_t, 0, RefSwc<48,10,24,uint64_t>>("ranlux64_base", 24, false, 4);
    reg<br::ranlux_base_01, uint32_t, 24, RefSwc01<24,10,24,uint32_t>>("ranlux_base_01", 24, false, 4);
    reg<br::ranlux64_base_01, uint32_t, 48, RefSwc01<48,10,24,uint32_t>>("ranlux64_base_01", 24, false, 4);
#define DB(nm, E, T, bits, RB, p, r) reg<E, T, bits, RefDiscardBlock<RB, p, r>>(nm, r, false, 20)
    DB("ranlux3", br::ranlux3, uint32_t, 0, RefSwc<24 COMMA 10 COMMA 24 COMMA uint32_t>, 223, 24);
    DB("ranlux4", br::ranlux4, uint32_t, 0, RefSwc<24 COMMA 10 COMMA 24 COMMA uint32_t>, 389, 24);
    DB("ranlux24", br::ranlux24, uint32_t, 0, RefSwc<24 COMMA 10 COMMA 24 COMMA uint32_t>, 223, 23);
    DB("ranlux48", br::ranlux48, uint64_t, 0, RefSwc<48 COMMA 5 COMMA 12 COMMA uint64_t>, 389, 11);
    DB("ranlux64_3", br::ranlux64_3, uint64_t, 0, RefSwc<48 COMMA 10 COMMA 24 COMMA uint64_t>, 223, 24);
    DB("ranlux64_4", br::ranlux64_4, uint64_t, 0, RefSwc<48 COMMA 10 COMMA 24 COMMA uint64_t>, 389, 24);
    DB("ranlux3_01", br::ranlux3_01, uint32_t, 24, RefSwc01<24 COMMA 10 COMMA 24 COMMA uint32_t>, 223, 24);
    DB("ranlux4_01", br::ranlux4_01, uint32_t, 24, RefSwc01<24 COMMA 10 COMMA 24 COMMA uint32_t>, 389, 24);
    DB("ranlux64_3_01", br::ranlux64_3_01, uint32_t, 48, RefSwc01<48 COMMA 10 COMMA 24 COMMA uint32_t>, 223, 24);
    DB("ranlux64_4_01", br::ranlux64_4_01, uint32_t, 48, RefSwc01<48 COMMA 10 COMMA 24 COMMA uint32_t>, 389, 24);
    reg<br::discard_block_engine<lcg<uint32_t,6,0,13>,5,2>, uint32_t, 0, RefDiscardBlock<RefLcg<uint32_t,6,0,13>,5,2>>("discard_block<lcg13,5,2>", 2, true);
    reg<br::discard_block_engine<lcg<uint16_t,5,3,16>,3,3>, uint16_t, 0, RefDiscardBlock<RefLcg<uint16_t,5,3,16>,3,3>>("discard_block<lcg16,3,3>", 3, true);
    reg<br::discard_block_engine<lcg<int32_t,13,5,31>,7,1>, int32_t, 0, RefDiscardBlock<RefLcg<int32_t,13,5,31>,7,1>>("discard_block<i32 lcg31,7,1>", 1, true);
    reg<br::discard_block_engine<br::subtract_with_carry_engine<uint32_t,2,2,5>,7,4>, uint32_t, 0, RefDiscardBlock<RefSwc<2,2,5,uint32_t>,7,4>>("discard_block<swc<2,2,5>,7,4>", 20, true);
    reg<br::discard_block_engine<br::mersenne_twister_engine<uint32_t,4,3,2,1,10,1,15,1,5,2,8,2,1812433253>,5,3>, uint32_t, 0, RefDiscardBlock<RefMt<uint32_t,4,3,2,1,10,1,15,1,5,2,8,2,1812433253>,5,3>>("discard_block<mt<4,3,2,1>,5,3>", 15, true);
}
