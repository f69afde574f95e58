// Every distribution type with lists of valid parameters, for the properties that hold of all of them.
// DGROUP selects the types compiled in.  F::operator()<D>(name, params) is called for each.
#pragma once
#include "cdraw.hpp"
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/weibull_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#ifndef DGROUP
#define DGROUP -1
#endif
namespace br = boost::random;
#if DGROUP == 6 || DGROUP == 7
#include <boost/multiprecision/cpp_bin_float.hpp>
#endif
#define DON(g) (DGROUP == -1 || DGROUP == (g))
enum { DGROUPS = 6 };
template<class D> using PL = std::vector<typename D::param_type>;
template<class P, class R> std::vector<P> one(std::initializer_list<R> v) { std::vector<P> r; for(R x : v) r.push_back(P(x)); return r; }
template<class P, class R> std::vector<P> two(std::initializer_list<std::pair<R, R>> v) { std::vector<P> r; for(auto x : v) r.push_back(P(x.first, x.second)); return r; }
template<class P, class R> P pw_const(std::vector<R> b, std::vector<R> w) { return P(b.begin(), b.end(), w.begin()); }
template<int g, class R, class F> void real_dists(F& f, std::string ty) {
    typedef std::pair<R, R> T;
    if constexpr(g == 1) {
        { typedef br::uniform_real_distribution<R> D; f.template operator()<D>("uniform_real_distribution" + ty, two<typename D::param_type, R>({T(0, 1), T(-1, 1), T(3, R(3.5)), T(R(-1e30), R(1e30)), T(R(0.1), R(0.3)), T(1000000, 1000001), T(0, R(0.3)), T(R(0.1), 1)})); }
        { typedef boost::uniform_real<R> D; f.template operator()<D>("uniform_real" + ty, two<typename D::param_type, R>({T(0, 1), T(-1, 1), T(3, R(3.5)), T(R(0.1), R(0.3)), T(0, R(0.3)), T(R(0.1), 1)})); }
        { typedef br::triangle_distribution<R> D; PL<D> p; static const R q[][3] = {{0, R(0.5), 1}, {-1, 0, 1}, {0, 0, 1}, {0, 1, 1}, {2, 3, 10}, {2, 9, 10}, {-100, -99, R(-98.5)}, {0, R(0.1), R(0.3)}, {R(0.1), R(0.1), R(0.7)}, {R(0.1), R(0.7), R(0.7)}, {1000, 1000, 1001}, {R(-0.3), R(0.1), R(0.3)}, {0, R(0.25), 1}, {0, R(0.5), 2}, {R(0.125), R(0.5), 1}}; for(auto& x : q) p.push_back(typename D::param_type(x[0], x[1], x[2])); f.template operator()<D>("triangle" + ty, p); }
        { typedef br::exponential_distribution<R> D; f.template operator()<D>("exponential" + ty, one<typename D::param_type, R>({1, R(0.5), 7, R(1e-10), R(1e10)})); }
        { typedef br::laplace_distribution<R> D; f.template operator()<D>("laplace" + ty, two<typename D::param_type, R>({T(0, 1), T(3, R(0.5)), T(-20, 7), T(0, R(1e-6)), T(3, 1), T(0, R(0.5))})); }
        { typedef br::weibull_distribution<R> D; f.template operator()<D>("weibull" + ty, two<typename D::param_type, R>({T(1, 1), T(R(0.5), 3), T(2, R(0.25)), T(10, 40), T(R(0.2), 1), T(100, 1), T(2, 3), T(2, 1)})); }
        { typedef br::extreme_value_distribution<R> D; f.template operator()<D>("extreme_value" + ty, two<typename D::param_type, R>({T(0, 1), T(3, R(0.5)), T(-20, 7), T(0, 1000), T(3, 1), T(0, R(0.5))})); }
        { typedef br::cauchy_distribution<R> D; f.template operator()<D>("cauchy" + ty, two<typename D::param_type, R>({T(0, 1), T(3, R(0.5)), T(-20, 7), T(0, 1000), T(3, 1), T(0, R(0.5))})); }
    }
    if constexpr(g == 2) {
        { typedef br::normal_distribution<R> D; f.template operator()<D>("normal" + ty, two<typename D::param_type, R>({T(0, 1), T(3, R(0.5)), T(-20, 7), T(0, R(1e-6)), T(1, 0), T(3, 1), T(0, R(0.5))})); }
        { typedef br::lognormal_distribution<R> D; f.template operator()<D>("lognormal" + ty, two<typename D::param_type, R>({T(0, 1), T(1, R(0.5)), T(-2, 2), T(3, 0), T(1, 1), T(0, R(0.5))})); }
        { typedef br::gamma_distribution<R> D; f.template operator()<D>("gamma" + ty, two<typename D::param_type, R>({T(1, 1), T(2, R(0.5)), T(R(0.5), 3), T(R(1.5), 1), T(100, R(0.01)), T(R(0.01), 1), T(R(1e6), 1), T(R(1.0001), 2), T(R(0.9999), 2), T(2, 3), T(R(0.5), R(0.5)), T(1, 3)})); }
        { typedef br::chi_squared_distribution<R> D; f.template operator()<D>("chi_squared" + ty, one<typename D::param_type, R>({1, 2, 3, R(0.5), 40, R(1e5)})); }
        { typedef br::beta_distribution<R> D; f.template operator()<D>("beta" + ty, two<typename D::param_type, R>({T(1, 1), T(R(0.5), R(0.5)), T(2, 5), T(R(0.1), 3), T(30, R(0.2)), T(R(0.01), R(0.01)), T(R(0.001), R(0.002)), T(R(0.5), 5), T(2, R(0.5)), T(R(0.1), R(0.5))})); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::hyperexponential_distribution<R> D; PL<D> p; auto P = [&](std::vector<R> a, std::vector<R> b) { p.push_back(typename D::param_type(a, b)); }; P({1}, {1}); P({R(0.5), R(0.5)}, {1, 2}); P({R(0.25), R(0.25), R(0.5)}, {3, R(0.125), 8}); P({R(0.125), R(0.875)}, {100, R(0.01)}); P({R(0.5), R(0.5)}, {2, 1}); P({R(0.5), R(0.5)}, {1, 3}); P({R(0.25), R(0.75)}, {1, 2}); P({R(0.25), R(0.25), R(0.5)}, {3, R(0.125), 4}); f.template operator()<D>("hyperexponential" + ty, p); }
    }
    if constexpr(g == 3) {
        { typedef br::fisher_f_distribution<R> D; f.template operator()<D>("fisher_f" + ty, two<typename D::param_type, R>({T(1, 1), T(2, 5), T(10, 3), T(R(1.5), 100), T(R(0.5), 4), T(3, 2), T(2, 3), T(10, 5)})); }
        { typedef br::student_t_distribution<R> D; f.template operator()<D>("student_t" + ty, one<typename D::param_type, R>({1, 2, 3, R(1.5), 50})); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::non_central_chi_squared_distribution<R> D; f.template operator()<D>("non_central_chi_squared" + ty, two<typename D::param_type, R>({T(1, 1), T(3, 2), T(R(0.5), 4), T(5, 30), T(1, 100), T(3, 4), T(R(0.5), 1)})); }
        { typedef br::uniform_on_sphere<R> D; PL<D> p; for(int d : {2, 3, 1, 0, 4, 7}) p.push_back(typename D::param_type(d)); f.template operator()<D>("uniform_on_sphere" + ty, p); }
    }
    if constexpr(g == 4) {
        { typedef br::bernoulli_distribution<R> D; f.template operator()<D>("bernoulli" + ty, one<typename D::param_type, R>({R(0.5), 0, 1, R(0.1), R(1e-9), R(0.999)})); }
        { typedef br::geometric_distribution<int, R> D; f.template operator()<D>("geometric<int>" + ty, one<typename D::param_type, R>({R(0.5), R(0.1), R(0.999), R(1e-3), R(1e-6)})); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::binomial_distribution<int, R> D; PL<D> p; static const std::pair<int, double> q[] = {{1, 0.5}, {0, 0.5}, {10, 0.3}, {10, 0}, {10, 1}, {100, 0.5}, {100, 0.02}, {1000, 0.7}, {100000, 0.25}, {1000000, 1e-6}, {2147483647, 1e-9}, {2147483647, 0.5}, {2147483647, 0.75}, {2147483646, 1}, {40, 0.9999}, {100, 0.3}, {10, 0.5}, {1000, 0.5}}; for(auto& x : q) p.push_back(typename D::param_type(x.first, (R)x.second)); f.template operator()<D>("binomial<int>" + ty, p); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::poisson_distribution<int, R> D; f.template operator()<D>("poisson<int>" + ty, one<typename D::param_type, R>({1, R(0.1), R(1e-9), 5, R(9.5), R(9.999), 10, 30, 1000, 1000000, 1000000000})); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::poisson_distribution<unsigned char, R> D; f.template operator()<D>("poisson<unsigned char>" + ty, one<typename D::param_type, R>({1, 9, 40, 100})); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::poisson_distribution<long long, R> D; f.template operator()<D>("poisson<long long>" + ty, one<typename D::param_type, R>({1, 9, 40, R(1e15)})); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::binomial_distribution<long long, R> D; PL<D> p; static const std::pair<long long, double> q[] = {{10, 0.3}, {1000, 0.7}, {1000000000000LL, 0.25}, {1000000000000LL, 1e-12}}; for(auto& x : q) p.push_back(typename D::param_type(x.first, (R)x.second)); f.template operator()<D>("binomial<long long>" + ty, p); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::binomial_distribution<unsigned char, R> D; PL<D> p; for(int t : {0, 9, 10, 32, 200, 255}) p.push_back(typename D::param_type(t, (R)0.3)); f.template operator()<D>("binomial<unsigned char>" + ty, p); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::negative_binomial_distribution<signed char, R> D; PL<D> p; for(int k : {0, 1, 9, 10}) p.push_back(typename D::param_type(k, (R)0.875)); f.template operator()<D>("negative_binomial<signed char>" + ty, p); }
        if constexpr(std::is_floating_point<R>::value) { typedef br::negative_binomial_distribution<int, R> D; PL<D> p; static const std::pair<int, double> q[] = {{1, 0.5}, {5, 0.3}, {40, 0.9}, {3, 0.01}, {0, 0.5}, {3, 1}, {100, 0.001}, {5, 0.5}, {40, 0.5}, {1, 0.3}}; for(auto& x : q) p.push_back(typename D::param_type(x.first, (R)x.second)); f.template operator()<D>("negative_binomial<int>" + ty, p); }
    }
    if constexpr(g == 5) {
        { typedef br::discrete_distribution<int, R> D; PL<D> p; auto P = [&](std::vector<R> w) { p.push_back(typename D::param_type(w)); }; P({1}); P({1, 2, 3}); P({0, 1, 0, 1}); P({R(0.1), R(0.2), R(0.3), R(0.4)}); P({R(1e-20), 1, R(1e20)}); P({5, 0, 0, 0, 0, 0, 0, 0, 3}); P({1, 3, 2}); P({2, 1, 3}); P({5, 0, 0, 0, 0, 0, 0, 3, 0}); P({0, 1, 1, 0}); f.template operator()<D>("discrete<int>" + ty, p); }
        { typedef br::piecewise_constant_distribution<R, std::conditional_t<std::is_floating_point<R>::value, double, R>> D; PL<D> p; auto P = [&](std::vector<R> b, std::vector<R> w) { p.push_back(typename D::param_type(b.begin(), b.end(), w.begin())); }; P({0, 1}, {1}); P({0, 1, 3}, {1, 2}); P({-5, R(0.1), R(0.3), 7}, {1, 0, 2}); P({0, 1, 2, 3, 4}, {0, 1, 1, 0}); P({1000000, 1000001}, {3}); P({R(0.1), R(0.2), R(0.7)}, {3, 1}); P({0, 1, 2}, {1, 3}); P({0, 1, 3}, {R(0.5), 3}); P({0, 1, 3}, {2, 1}); P({0, 2, 3}, {2, 1}); P({0, 2}, {1}); f.template operator()<D>("piecewise_constant" + ty, p); }
        { typedef br::piecewise_linear_distribution<R> D; PL<D> p; auto P = [&](std::vector<R> b, std::vector<R> w) { p.push_back(typename D::param_type(b.begin(), b.end(), w.begin())); }; P({0, 1}, {1, 1}); P({0, 1, 3}, {0, 2, 1}); P({-5, R(0.1), R(0.3), 7}, {1, 0, 2, 0}); P({0, 1, 2, 3}, {0, 1, 1, 0}); P({1000000, 1000001}, {3, 0}); P({R(0.1), R(0.2), R(0.7)}, {3, 1, 3}); P({0, 1, 2}, {1, 2, 1}); P({0, R(1.75), 2}, {1, 2, 1}); P({0, R(0.25), 2}, {1, 2, 1}); P({0, 1, 3}, {2, 0, 2}); P({0, 2, 3}, {2, 1, 0}); P({0, 1}, {0, 1}); f.template operator()<D>("piecewise_linear" + ty, p); }
    }
}
template<class F> void all_dists(F& f) {
    if constexpr(DON(5)) { { typedef br::discrete_distribution<int, int> D; PL<D> p; auto P = [&](std::vector<int> w) { p.push_back(typename D::param_type(w)); }; P({1}); P({1, 2, 3}); P({0, 1, 0, 1}); P({7, 0, 0, 0, 0, 0, 0, 0, 3}); P({2, 4, 6}); P({1000000000, 1000000000, 1}); f.template operator()<D>("discrete<int><int>", p); } { typedef br::discrete_distribution<unsigned char, unsigned long long> D; PL<D> p; auto P = [&](std::vector<unsigned long long> w) { p.push_back(typename D::param_type(w)); }; P({5}); P({1, 2, 3, 4}); P({~0ULL, 0, ~0ULL / 2}); f.template operator()<D>("discrete<unsigned char><unsigned long long>", p); } }
    if constexpr(DON(0)) {
        typedef long long ll; typedef signed char sc;
        auto go = [&](auto zero, const char* ty) { typedef decltype(zero) I; typedef std::pair<I, I> T; const I lo = (std::numeric_limits<I>::min)(), hi = (std::numeric_limits<I>::max)(); typedef br::uniform_int_distribution<I> D; f.template operator()<D>(std::string("uniform_int_distribution") + ty, two<typename D::param_type, I>({T(0, 9), T(0, 0), T(1, 6), T(lo, hi), T(lo, 1), T(hi, hi), T(2, hi), T(lo + 1, hi - 1), T(5, 100)})); };
        go(int(), "<int>"); go(ll(), "<long long>"); go(sc(), "<signed char>"); go((unsigned char)0, "<unsigned char>"); go((unsigned)0, "<unsigned>"); go((unsigned long long)0, "<unsigned long long>"); go((unsigned short)0, "<unsigned short>");
        { typedef std::pair<int, int> T; typedef boost::uniform_int<int> D; f.template operator()<D>("uniform_int<int>", two<typename D::param_type, int>({T(0, 9), T(1, 6), T(-7, 7), T(5, 5), T(-2147483647 - 1, 2147483647), T(1, 9), T(0, 6)})); }
        { typedef std::pair<int, int> T; typedef br::uniform_smallint<int> D; f.template operator()<D>("uniform_smallint<int>", two<typename D::param_type, int>({T(0, 9), T(1, 6), T(-7, 7), T(5, 5), T(0, 65535), T(1, 9), T(0, 6)})); }
        { typedef std::pair<unsigned char, unsigned char> T; typedef br::uniform_smallint<unsigned char> D; f.template operator()<D>("uniform_smallint<unsigned char>", two<typename D::param_type, unsigned char>({T(0, 9), T(1, 6), T(200, 255), T(0, 255)})); }
    }
#if DGROUP == 6 || DGROUP == 7
    // a user-defined real type of 113 bits; the distributions that work with such types
    typedef boost::multiprecision::cpp_bin_float_quad Quad;
    if constexpr(DGROUP == 6) { real_dists<1, Quad>(f, "<quad>"); real_dists<2, Quad>(f, "<quad>"); real_dists<3, Quad>(f, "<quad>"); } else { real_dists<4, Quad>(f, "<quad>"); real_dists<5, Quad>(f, "<quad>"); }
#endif
    auto reals = [&](auto k) { constexpr int g = decltype(k)::value; if constexpr(DON(g)) { real_dists<g, double>(f, "<double>"); real_dists<g, float>(f, "<float>");
#ifdef DISTS_LD
        real_dists<g, long double>(f, "<long double>");
#endif
    } };
    reals(std::integral_constant<int, 1>()); reals(std::integral_constant<int, 2>()); reals(std::integral_constant<int, 3>()); reals(std::integral_constant<int, 4>()); reals(std::integral_constant<int, 5>());
}
