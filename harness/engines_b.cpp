#include "ref.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/lagged_fibonacci.hpp>
namespace br = boost::random;
#define MT(nm, T, w, n, m, r, a, u, d, s, b, t, c, l, f, tiny) reg<br::mersenne_twister_engine<T,w,n,m,r,a,u,d,s,b,t,c,l,f>, T, 0, RefMt<T,w,n,m,r,a,u,d,s,b,t,c,l,f>>(nm, n, tiny, (n)/8+1)
#define LF(nm, T, w, p, q, tiny) reg<br::lagged_fibonacci_engine<T,w,p,q>, T, 0, RefLf<w,p,q,T>>(nm, p, tiny, (p)/8+1)
#define LF01(nm, T, w, p, q, tiny) reg<br::lagged_fibonacci_01_engine<T,w,p,q>, uint32_t, w, RefLf01<w,p,q,uint32_t>>(nm, p, tiny, (p)/8+1)
void reg_b() {
    reg<br::mt19937, uint32_t, 0, RefMt<uint32_t,32,624,397,31,0x9908b0df,11,0xffffffff,7,0x9d2c5680,15,0xefc60000,18,1812433253>>("mt19937", 624, false, 80);
    reg<br::mt11213b, uint32_t, 0, RefMt<uint32_t,32,351,175,19,0xccab8ee7,11,0xffffffff,7,0x31b6ab00,15,0xffe50000,17,1812433253>>("mt11213b", 351, false, 45);
    reg<br::mt19937_64, uint64_t, 0, RefMt<uint64_t,64,312,156,31,0xb5026f5aa96619e9ULL,29,0x5555555555555555ULL,17,0x71d67fffeda60000ULL,37,0xfff7eee000000000ULL,43,6364136223846793005ULL>>("mt19937_64", 312, false, 40);
    MT("mt<4,3,2,1>", uint32_t, 4, 3, 2, 1, 10, 1, 15, 1, 5, 2, 8, 2, 1812433253, true);
    MT("mt<4,3,2,3>", uint32_t, 4, 3, 2, 3, 9, 1, 7, 1, 10, 2, 12, 3, 5, true);
    MT("mt_m1<5,3,1,4>", uint32_t, 5, 3, 1, 4, 20, 2, 31, 1, 21, 3, 24, 1, 69069, true);
    MT("mt<8,3,2,7>", uint32_t, 8, 3, 2, 7, 133, 3, 0xff, 2, 0x5c, 4, 0xb0, 5, 1812433253, true);
    MT("mt<u64,6,3,2,5>", uint64_t, 6, 3, 2, 5, 35, 2, 63, 1, 42, 3, 56, 4, 69069, true);
    MT("mt<u64,40,7,3,11>", uint64_t, 40, 7, 3, 11, 0x9908b0dfa1ULL, 11, 0xffffffffffULL, 7, 0x9d2c5680a0ULL, 15, 0xefc6000000ULL, 18, 6364136223846793005ULL, false);
    MT("mt<32,14,5,17>", uint32_t, 32, 14, 5, 17, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253, false);
    LF("lf<u32,4,3,1>", uint32_t, 4, 3, 1, true);
    LF("lf<u32,3,4,3>", uint32_t, 3, 4, 3, true);
    LF("lf<u16,2,5,2>", uint16_t, 2, 5, 2, true);
    LF("lf<u32,32,17,5>", uint32_t, 32, 17, 5, false);
    LF("lf<u32,31,55,24>", uint32_t, 31, 55, 24, false);
    LF("lf<u64,64,7,4>", uint64_t, 64, 7, 4, false);
    LF("lf<u64,48,607,273>", uint64_t, 48, 607, 273, false);
    LF01("lf01<float,4,3,1>", float, 4, 3, 1, true);
    LF01("lf01<double,3,4,3>", double, 3, 4, 3, true);
    LF01("lf01<float,24,5,2>", float, 24, 5, 2, false);
    LF01("lf01<double,32,7,3>", double, 32, 7, 3, false);
    LF01("lf01<double,52,5,3>", double, 52, 5, 3, false);
    LF01("lf01<long double,60,6,1>", long double, 60, 6, 1, false);
    LF01("lagged_fibonacci607", double, 48, 607, 273, false);
    LF01("lagged_fibonacci1279", double, 48, 1279, 418, false);
    LF01("lagged_fibonacci2281", double, 48, 2281, 1252, false);
    LF01("lagged_fibonacci3217", double, 48, 3217, 576, false);
    LF01("lagged_fibonacci4423", double, 48, 4423, 2098, false);
    LF01("lagged_fibonacci9689", double, 48, 9689, 5502, false);
    LF01("lagged_fibonacci19937", double, 48, 19937, 9842, false);
    LF01("lagged_fibonacci23209", double, 48, 23209, 13470, false);
    LF01("lagged_fibonacci44497", double, 48, 44497, 21034, false);
    static_assert(std::is_same<br::lagged_fibonacci607, br::lagged_fibonacci_01_engine<double,48,607,273>>::value, "");
}
