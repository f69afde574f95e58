#include "ref.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/mixmax.hpp>
namespace br = boost::random;
#define LCG(nm, T, a, c, m, tiny) reg<br::linear_congruential_engine<T, a, c, m>, T, 0, RefLcg<T, a, c, m>>(nm, 2, tiny)
#define INV(nm, T, a, c, m, tiny) reg<br::inversive_congruential_engine<T, a, c, m>, T, 0, RefInv<T, a, c, m>>(nm, 2, tiny)
#define LFSR(nm, T, w, k, q, s, tiny) reg<br::linear_feedback_shift_engine<T, w, k, q, s>, T, 0, RefLfsr<T, w, k, q, s>>(nm, 2, tiny)
template<class T, T a, T c, T m> using lcg = br::linear_congruential_engine<T, a, c, m>;
void reg_a() {
    reg<br::minstd_rand0, uint32_t, 0, RefLcg<uint32_t, 16807, 0, 2147483647>>("minstd_rand0", 2, false);
    reg<br::minstd_rand, uint32_t, 0, RefLcg<uint32_t, 48271, 0, 2147483647>>("minstd_rand", 2, false);
    reg<br::rand48, uint32_t, 0, RefRand48>("rand48", 2, false);
    LCG("lcg<u16,6,0,13>", uint16_t, 6, 0, 13, true);
    LCG("lcg<u16,5,3,0>", uint16_t, 5, 3, 0, true);
    LCG("lcg<i16,13,5,31>", int16_t, 13, 5, 31, true);
    LCG("lcg<i16,28,5,32749>", int16_t, 28, 5, 32749, false);
    LCG("lcg<u32,1,5,17>", uint32_t, 1, 5, 17, true);
    LCG("lcg<u32,1,0,7>", uint32_t, 1, 0, 7, true);
    LCG("lcg<u32,0,3,11>", uint32_t, 0, 3, 11, true);
    LCG("lcg<u32,13,5,36>", uint32_t, 13, 5, 36, true);
    LCG("lcg<u32,7,5,36>", uint32_t, 7, 5, 36, true);
    LCG("lcg<u32,11,6,60>", uint32_t, 11, 6, 60, true);
    LCG("lcg<u32,5,4,16>", uint32_t, 5, 4, 16, true);
    LCG("lcg<u32,13,0,16>", uint32_t, 13, 0, 16, true);
    LCG("lcg<u32,1664525,1013904223,0>", uint32_t, 1664525, 1013904223, 0, false);
    LCG("lcg<i32,48271,0,2^31-1>", int32_t, 48271, 0, 2147483647, false);
    LCG("lcg<i32,2147483640,11,2^31-1>", int32_t, 2147483640, 11, 2147483647, false);
    LCG("lcg<u32,4294967280,4294967290,4294967291>", uint32_t, 4294967280u, 4294967290u, 4294967291u, false);
    LCG("lcg<u64,6364136223846793005,1442695040888963407,0>", uint64_t, 6364136223846793005ULL, 1442695040888963407ULL, 0, false);
    LCG("lcg<u64,437799614237992725,7,2^61-1>", uint64_t, 437799614237992725ULL, 7, 2305843009213693951ULL, false);
    LCG("lcg<u64,1181783497276652981,0,2^64-59>", uint64_t, 1181783497276652981ULL, 0, 18446744073709551557ULL, false);
    LCG("lcg<i64,3935559000370003845,5,2^63-25>", int64_t, 3935559000370003845LL, 5, 9223372036854775783LL, false);
    reg<br::ecuyer1988, uint32_t, 0, RefAdd<RefLcg<uint32_t,40014,0,2147483563>, RefLcg<uint32_t,40692,0,2147483399>, 2147483563>>("ecuyer1988", 2, false);
    reg<br::additive_combine_engine<lcg<uint32_t,6,0,13>, lcg<uint32_t,7,0,11>>, uint32_t, 0, RefAdd<RefLcg<uint32_t,6,0,13>, RefLcg<uint32_t,7,0,11>, 13>>("additive<lcg13,lcg11>", 2, true);
    reg<br::additive_combine_engine<lcg<int32_t,6,0,13>, lcg<int32_t,3,0,7>>, int32_t, 0, RefAdd<RefLcg<int32_t,6,0,13>, RefLcg<int32_t,3,0,7>, 13>>("additive<i32 lcg13,lcg7>", 2, true);
    INV("inv<u32,5,3,13>", uint32_t, 5, 3, 13, true);
    INV("inv<u32,3,0,7>", uint32_t, 3, 0, 7, true);
    INV("inv<i32,7,11,31>", int32_t, 7, 11, 31, true);
    INV("inv<u16,2,1,251>", uint16_t, 2, 1, 251, true);
    INV("hellekalek1995", uint32_t, 9102, 2147483647-36884165, 2147483647, false);
    INV("inv<u64,3,1,2^61-1>", uint64_t, 3, 1, 2305843009213693951ULL, false);
    INV("inv<i64,3,1,2^61-1>", int64_t, 3, 1, 2305843009213693951LL, false);
    LFSR("lfsr<u32,32,31,13,12>", uint32_t, 32, 31, 13, 12, false);
    LFSR("lfsr<u32,32,29,2,4>", uint32_t, 32, 29, 2, 4, false);
    LFSR("lfsr<u32,32,28,3,17>", uint32_t, 32, 28, 3, 17, false);
    LFSR("lfsr<u32,8,7,3,2>", uint32_t, 8, 7, 3, 2, true);
    LFSR("lfsr<u16,9,7,1,3>", uint16_t, 9, 7, 1, 3, true);
    LFSR("lfsr<u64,64,63,1,10>", uint64_t, 64, 63, 1, 10, false);
    LFSR("lfsr<u64,64,55,24,5>", uint64_t, 64, 55, 24, 5, false);
    typedef RefLfsr<uint32_t,32,31,13,12> L1; typedef RefLfsr<uint32_t,32,29,2,4> L2; typedef RefLfsr<uint32_t,32,28,3,17> L3;
    reg<br::taus88, uint32_t, 0, RefXor<RefXor<L1,0,L2,0,uint32_t>,0,L3,0,uint32_t>>("taus88", 2, false);
    reg<br::xor_combine_engine<br::linear_feedback_shift_engine<uint32_t,8,7,3,2>,0,br::linear_feedback_shift_engine<uint32_t,6,5,2,2>,3>, uint32_t, 0,
        RefXor<RefLfsr<uint32_t,8,7,3,2>,0,RefLfsr<uint32_t,6,5,2,2>,3,uint32_t>>("xor<lfsr8<<0,lfsr6<<3>", 2, true);
    reg<br::xor_combine_engine<lcg<uint32_t,6,0,13>,4,lcg<uint32_t,5,3,16>,1>, uint32_t, 0,
        RefXor<RefLcg<uint32_t,6,0,13>,4,RefLcg<uint32_t,5,3,16>,1,uint32_t>>("xor<lcg13<<4,lcg16<<1>", 2, true);
    reg<br::xor_combine_engine<lcg<uint32_t,3,0,17>,0,lcg<uint32_t,5,0,17>,0>, uint32_t, 0, RefXor<RefLcg<uint32_t,3,0,17>,0,RefLcg<uint32_t,5,0,17>,0,uint32_t>>("xor<lcg17,lcg17>", 2, true);
    reg<br::xor_combine_engine<lcg<uint32_t,75,74,65537>,0,lcg<uint32_t,3,1,65537>,8>, uint32_t, 0, RefXor<RefLcg<uint32_t,75,74,65537>,0,RefLcg<uint32_t,3,1,65537>,8,uint32_t>>("xor<lcg65537,lcg65537<<8>", 2, false);
    reg<br::splitmix64, uint64_t, 0, RefSplitmix>("splitmix64", 2, false);
    reg<br::mixmax, uint64_t, 0, RefMixmax<17,36>>("mixmax", 17, false, 4);
}
