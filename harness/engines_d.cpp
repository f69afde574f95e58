#include "ref.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
namespace br = boost::random;
template<class T, T a, T c, T m> using lcg = br::linear_congruential_engine<T, a, c, m>;
template<class T, T a, T c, T m> using rl = RefLcg<T, a, c, m>;
typedef RefMt<uint32_t,32,624,397,31,0x9908b0df,11,0xffffffff,7,0x9d2c5680,15,0xefc60000,18,1812433253> rmt;
void reg_d() {
    reg<br::kreutzer1986, uint32_t, 0, RefShuffle<rl<uint32_t,1366,150889,714025>,97>>("kreutzer1986", 2, false, 30);
    reg<br::knuth_b, uint32_t, 0, RefShuffle<rl<uint32_t,16807,0,2147483647>,256>>("knuth_b", 2, false, 80);
    reg<br::shuffle_order_engine<lcg<uint32_t,6,0,13>,3>, uint32_t, 0, RefShuffle<rl<uint32_t,6,0,13>,3>>("shuffle<lcg13,3>", 2, true);
    reg<br::shuffle_order_engine<lcg<uint16_t,5,3,16>,4>, uint16_t, 0, RefShuffle<rl<uint16_t,5,3,16>,4>>("shuffle<u16 lcg16,4>", 2, true);
    reg<br::shuffle_order_engine<lcg<uint16_t,6,0,13>,2>, uint16_t, 0, RefShuffle<rl<uint16_t,6,0,13>,2>>("shuffle<u16 lcg13,2>", 2, true);
    reg<br::shuffle_order_engine<lcg<int32_t,13,5,31>,5>, int32_t, 0, RefShuffle<rl<int32_t,13,5,31>,5>>("shuffle<i32 lcg31,5>", 2, true);
    reg<br::shuffle_order_engine<lcg<uint32_t,6,0,13>,1>, uint32_t, 0, RefShuffle<rl<uint32_t,6,0,13>,1>>("shuffle<lcg13,1>", 2, true);
    reg<br::shuffle_order_engine<lcg<uint32_t,1664525,1013904223,0>,7>, uint32_t, 0, RefShuffle<rl<uint32_t,1664525,1013904223,0>,7>>("shuffle<lcg32,7>", 2, false, 4);
    reg<br::shuffle_order_engine<lcg<uint64_t,6364136223846793005ULL,1442695040888963407ULL,0>,6>, uint64_t, 0, RefShuffle<rl<uint64_t,6364136223846793005ULL,1442695040888963407ULL,0>,6>>("shuffle<lcg64,6>", 2, false, 4);
    reg<br::shuffle_order_engine<lcg<uint64_t,437799614237992725ULL,7,2305843009213693951ULL>,100>, uint64_t, 0, RefShuffle<rl<uint64_t,437799614237992725ULL,7,2305843009213693951ULL>,100>>("shuffle<lcg61,100>", 2, false, 30);
    reg<br::shuffle_order_engine<lcg<uint64_t,1181783497276652981ULL,0,18446744073709551557ULL>,9>, uint64_t, 0, RefShuffle<rl<uint64_t,1181783497276652981ULL,0,18446744073709551557ULL>,9>>("shuffle<lcg2^64-59,9>", 2, false, 4);
    reg<br::shuffle_order_engine<br::mersenne_twister_engine<uint32_t,4,3,2,1,10,1,15,1,5,2,8,2,1812433253>,3>, uint32_t, 0, RefShuffle<RefMt<uint32_t,4,3,2,1,10,1,15,1,5,2,8,2,1812433253>,3>>("shuffle<mt<4,3,2,1>,3>", 3, true, 2);
    reg<br::independent_bits_engine<br::mt19937,31,uint32_t>, uint32_t, 0, RefIb<rmt,31>>("ibits<mt19937,31>", 8, false, 80);
    reg<br::independent_bits_engine<br::mt19937,64,uint64_t>, uint32_t, 0, RefIb<rmt,64>>("ibits<mt19937,64>", 8, false, 80);
    reg<br::independent_bits_engine<br::minstd_rand0,32,uint32_t>, uint32_t, 0, RefIb<rl<uint32_t,16807,0,2147483647>,32>>("ibits<minstd_rand0,32>", 2, false);
    reg<br::independent_bits_engine<br::minstd_rand,1,uint16_t>, uint32_t, 0, RefIb<rl<uint32_t,48271,0,2147483647>,1>>("ibits<minstd_rand,1>", 2, false);
    reg<br::independent_bits_engine<br::ranlux24_base,64,uint64_t>, uint32_t, 0, RefIb<RefSwc<24,10,24,uint32_t>,64>>("ibits<ranlux24_base,64>", 24, false, 4);
    reg<br::independent_bits_engine<lcg<uint64_t,6364136223846793005ULL,1442695040888963407ULL,0>,53,uint64_t>, uint64_t, 0, RefIb<rl<uint64_t,6364136223846793005ULL,1442695040888963407ULL,0>,53>>("ibits<lcg64,53>", 2, false);
    reg<br::independent_bits_engine<lcg<uint32_t,6,0,13>,5,uint32_t>, uint32_t, 0, RefIb<rl<uint32_t,6,0,13>,5>>("ibits<lcg13,5>", 2, true);
    reg<br::independent_bits_engine<lcg<uint16_t,5,3,16>,7,uint32_t>, uint16_t, 0, RefIb<rl<uint16_t,5,3,16>,7>>("ibits<u16 lcg16,7>", 2, true);
    reg<br::independent_bits_engine<lcg<int32_t,13,1,31>,9,uint64_t>, int32_t, 0, RefIb<rl<int32_t,13,1,31>,9>>("ibits<i32 lcg31,9>", 2, true);
    reg<br::independent_bits_engine<br::mersenne_twister_engine<uint32_t,4,3,2,1,10,1,15,1,5,2,8,2,1812433253>,6,uint32_t>, uint32_t, 0, RefIb<RefMt<uint32_t,4,3,2,1,10,1,15,1,5,2,8,2,1812433253>,6>>("ibits<mt<4,3,2,1>,6>", 3, true, 2);
}
