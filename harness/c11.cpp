#define VF_QUICK 8
// C11: inverse trigonometric functions.
#include "formats.hpp"
using namespace vf;

template <typename F>
struct inv
{
    using M = fmt<F>;
    using T = typename M::store;
    using real = std::conditional_t<(M::bits > 32), long double, double>;
    meter_t mt{std::string("atan ") + M::name()}, ms{std::string("asin ") + M::name()}, mc{std::string("acos ") + M::name()};
    static constexpr i128 one_ = (i128)1 << M::frac;
    // asin divides by sqrt(1 - x^2), which next to the ends gives quotients up to 2^(frac / 2)
    static constexpr bool has_asin = (int)(sizeof(T) * 8) - 1 - (int)M::frac > (int)M::frac / 2;
    real u = std::ldexp((real)1, -(int)M::frac);

    void at_one(T a)
    {
        const i128 A = (i128)a;
        at("atan", M::name(), (i64)a);
        mt.see(A);
        const real v = (real)a * u;
        const i128 q = (i128)eirin::atan(M::mk(a)).internal_value();
        const real want = std::atan(v);
        const real e = std::fabs((real)q * u - want);
        const real y = std::fabs(v) > 1 ? 1 / std::fabs(v) : std::fabs(v);
        const real bound = std::min<real>((real)2.04e-4, (real)0.0058 * y * y * y + 4 * u) + 5 * u;
        mt.ratio((double)(e / bound), (i64)a);
        if(!(e <= bound))
            fail(std::string("atan ") + M::name(), strf("raw %s: raw %s, atan(%.12Lg) is %.12Lg but got %.12Lg", str128(A).c_str(), str128(q).c_str(), (long double)v, (long double)want, (long double)((real)q * u)));
        if(std::fabs((real)q * u) > std::acos((real)0) + u)
            fail(std::string("atan range ") + M::name(), "raw " + str128(A) + ": raw " + str128(q) + " is more than a quarter turn");
        const i128 qn = A == lo_of<T>() ? -q : (i128)eirin::atan(M::mk(-A)).internal_value(); // the lowest value has no opposite
        if(qn != -q)
            fail(std::string("atan odd ") + M::name(), "raw " + str128(A) + ": raw " + str128(q) + " and for the opposite " + str128(qn));
    }
    void as_one(T a)
    {
        if constexpr(!has_asin)
            return;
        const i128 A = (i128)a;
        if(A > one_ || A < -one_)
            return;
        const real v = (real)a * u;
        const real s = std::sqrt((1 - v) * (1 + v));
        // x / sqrt(1 - x * x) has to be representable
        at("asin", M::name(), (i64)a);
        ms.see(A);
        const i128 q = (i128)eirin::asin(M::mk(a)).internal_value();
        real want = std::asin(v);
        real e = std::fabs((real)q * u - want);
        // the error of the arctangent, and of the square root it divides by
        real bound = (real)2.04e-4 + 8 * u + std::min<real>((real)1.2e-3, M::frac != 16 || M::bits != 32 ? (real)4.2e-5 / std::max<real>(s, (real)1e-9) : 0) ;
        ms.ratio((double)(e / bound), (i64)a);
        if(!(e <= bound))
            fail(std::string("asin ") + M::name(), strf("raw %s: raw %s, asin(%.12Lg) is %.12Lg but got %.12Lg", str128(A).c_str(), str128(q).c_str(), (long double)v, (long double)want, (long double)((real)q * u)));
        at("acos", M::name(), (i64)a);
        mc.see(A);
        const i128 c = (i128)eirin::acos(M::mk(a)).internal_value();
        want = std::acos(v);
        e = std::fabs((real)c * u - want);
        bound += 2 * u;
        mc.ratio((double)(e / bound), (i64)a);
        if(!(e <= bound))
            fail(std::string("acos ") + M::name(), strf("raw %s: raw %s, acos(%.12Lg) is %.12Lg but got %.12Lg", str128(A).c_str(), str128(c).c_str(), (long double)v, (long double)want, (long double)((real)c * u)));
        // complementary angles
        const i128 h = (i128)std::ldexp(1.57079632679489661923132169163975144L, (int)M::frac);
        i128 d = q + c - h;
        if(d > 2 || d < -2)
            fail(std::string("asin + acos ") + M::name(), "raw " + str128(A) + ": raw " + str128(q) + " + raw " + str128(c) + " is not a right angle");
    }
    void ends()
    {
        const long double pi = 3.14159265358979323846264338327950288L;
        auto near = [&](const char* what, F got, long double want, i64 tol)
        {
            mc.see((i128)got.internal_value(), 1);
            i128 w = (i128)std::ldexp(want, (int)M::frac);
            i128 d = (i128)got.internal_value() - w;
            if(d > tol || d < -tol)
                fail(std::string(what) + " " + M::name(), "raw " + str128((i128)got.internal_value()) + ", expected raw " + str128(w));
        };
        near("atan(0)", eirin::atan(M::mk(0)), 0, 0);
        if constexpr(!has_asin)
            return;
        near("asin(1)", eirin::asin(M::mk(one_)), pi / 2, 1);
        near("asin(-1)", eirin::asin(M::mk(-one_)), -pi / 2, 1);
        near("asin(0)", eirin::asin(M::mk(0)), 0, 0);
        near("acos(1)", eirin::acos(M::mk(one_)), 0, 0);
        near("acos(-1)", eirin::acos(M::mk(-one_)), pi, 1);
        near("acos(0)", eirin::acos(M::mk(0)), pi / 2, 1);
    }
    void run(rng_t& g)
    {
        ends();
        auto v = interesting_of<F>();
        for(T a : v)
        {
            at_one(a);
            as_one(a);
        }
        for(u64 i = 0, n = reps(10000000, 200000); i < n; ++i)
        {
            at_one(random_raw<T>(g, v));
            // [-4, 4], [-1, 1], next to the ends
            at_one((T)((i128)(g.next() % (u64)(8 * one_)) - 4 * one_));
            i128 k = (i128)(g.next() % (u64)(2 * one_ + 1)) - one_;
            as_one((T)k);
            i128 near1 = (i128)(g.next() >> (64 - 1 - g.below(M::frac)));
            as_one((T)(one_ - near1));
            as_one((T)(near1 - one_));
            as_one(random_raw<T>(g, v));
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("inverse ") + fmt<F>::name(), [](rng_t& g)
                        {
                            inv<F> d;
                            d.run(g);
                        }});
    };
    flist<S32<15>, S32<17>, S32<24>, S64<48>, S16<12>, S64<56>, S32<16>, S32W<16>, S16<8>, S16<10>, S32<8>, S32<12>, S32<20>, S32<16, true>, S64<32>, S64<16>, S64<24>, S64<32, true>>::each(go);
    run_jobs(std::move(jobs));
    u64 stride = step(1, 11);
    parallel("atan s32.16 sweep", (u64(1) << 32) / stride, 1 << 16, [&](rng_t&, u64 b, u64 e)
             {
                 inv<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.at_one((int32_t)(uint32_t)(i * stride + opt.seed % stride));
             });
    // every argument of the default 32 bit format
    parallel("asin s32.16 exhaustive", 131073, 1 << 12, [&](rng_t&, u64 b, u64 e)
             {
                 inv<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.as_one((int32_t)i - 65536);
             });
}
