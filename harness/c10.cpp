#define VF_QUICK 8
// C10: sine, cosine, tangent.
#include "formats.hpp"
using namespace vf;

template <typename F>
struct trig
{
    using M = fmt<F>;
    using T = typename M::store;
    using real = std::conditional_t<(M::bits > 32), long double, double>;
    meter_t ms{std::string("sin ") + M::name()}, mc{std::string("cos ") + M::name()}, mt{std::string("tan ") + M::name()};
    static constexpr i128 one_ = (i128)1 << M::frac;
    real u = std::ldexp((real)1, -(int)M::frac);
    // relative error of the stored period
    real drift, base;
    trig()
    {
        const long double tp = 6.283185307179586476925286766559005768L;
        // twice the value of the stored pi, or the stored double pi: whichever is further away
        long double k = std::ldexp(tp, (int)M::frac), st = M::rounding ? std::floor(k + 0.5L) : std::floor(k);
        drift = (real)(std::fabs(k - st) / k);
        // the rounding of the products
        base = 7 * u;
    }
    // the first omitted term of the series for the angle to the nearest zero
    static real series(real s, real c, real shift)
    {
        real t = std::atan2(std::fabs(s), std::fabs(c)) + shift;
        if(t > (real)1.5707963267948966)
            t = (real)1.5707963267948966;
        real t2 = t * t, t4 = t2 * t2;
        // angles less than 0.00015 are their own sine
        return t4 * t4 * t2 * t / 39916800 + (t - shift < (real)0.00015001 ? t2 * t / 6 : 0);
    }
    void one(T a)
    {
        const i128 A = (i128)a;
        at("sin", M::name(), (i64)a);
        ms.see(A);
        const F x = M::mk(a);
        const real v = (real)a * u;
        const i128 s = (i128)eirin::sin(x).internal_value();
        const real sv = std::sin(v), cv = std::cos(v);
        const real shift = std::fabs(v) * drift + 4 * u;
        const real bound = base + std::fabs(v) * drift + series(sv, cv, shift);
        real e = std::fabs((real)s * u - sv);
        ms.ratio((double)(e / bound), (i64)a);
        if(!(e <= bound))
            fail(std::string("sin ") + M::name(), strf("raw %s: raw %s, sin(%.12Lg) is %.12Lg but got %.12Lg", str128(A).c_str(), str128(s).c_str(), (long double)v, (long double)std::sin(v), (long double)((real)s * u)));
        const i128 top = one_ + 8 + (i128)std::ldexp(3.7e-6L, (int)M::frac);
        if(s > top || s < -top)
            fail(std::string("sin range ") + M::name(), "raw " + str128(A) + ": raw " + str128(s));
        const i128 sn = A == lo_of<T>() ? -s : (i128)eirin::sin(M::mk(-A)).internal_value(); // the lowest value has no opposite
        if(sn != -s)
            fail(std::string("sin odd ") + M::name(), "raw " + str128(A) + ": " + str128(s) + " and for the opposite " + str128(sn));
        at("cos", M::name(), (i64)a);
        mc.see(A);
        const i128 c = (i128)eirin::cos(x).internal_value();
        e = std::fabs((real)c * u - cv);
        const real cbound = base + 2 * u + std::fabs(v) * drift + series(cv, sv, shift);
        mc.ratio((double)(e / cbound), (i64)a);
        if(!(e <= cbound))
            fail(std::string("cos ") + M::name(), strf("raw %s: raw %s, cos(%.12Lg) is %.12Lg but got %.12Lg", str128(A).c_str(), str128(c).c_str(), (long double)v, (long double)std::cos(v), (long double)((real)c * u)));
        at("tan", M::name(), (i64)a);
        mt.see(A);
        if(c >= -1 && c <= 1)
        {
            // the pole of the format
            bool thrown = false;
            try
            {
                (void)eirin::tan(x);
            }
            catch(const std::domain_error&)
            {
                thrown = true;
            }
            if(!thrown)
                fail(std::string("tan pole ") + M::name(), "raw " + str128(A) + ": the cosine is raw " + str128(c) + " and no domain_error");
            return;
        }
        i128 q = s * one_;
        if(M::rounding)
        {
            i128 n = q < 0 ? -q : q, d = c < 0 ? -c : c, w = n / d;
            if(n % d >= d - n % d)
                ++w;
            q = (q < 0) != (c < 0) ? -w : w;
        }
        else
            q /= c;
        if(!fits<T>(q))
            return;
        const i128 t = (i128)eirin::tan(x).internal_value();
        if(t != q)
            fail(std::string("tan ") + M::name(), "raw " + str128(A) + ": raw " + str128(t) + ", sine over cosine is raw " + str128(q));
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        for(T a : v)
            one(a);
        // around the multiples of pi / 4
        for(int k = -400; k <= 400; ++k)
            for(int d = -12; d <= 12; ++d)
            {
                long double p = std::floor(std::ldexp(0.785398163397448309615660845819875721L * k, (int)M::frac)) + d;
                if(std::fabs(p) < 9.2e18L && fits<T>((i128)p))
                    one((T)(i128)p);
            }
        for(u64 i = 0, n = reps(20000000, 300000); i < n; ++i)
        {
            one(random_raw<T>(g, v));
            // ten turns around zero
            i128 k = (i128)(g.next() % (u64)(one_ * 125 < ((i128)1 << 62) ? one_ * 125 : ((i128)1 << 62))) - one_ * 62;
            if(fits<T>(k))
                one((T)k);
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("trig ") + fmt<F>::name(), [](rng_t& g)
                        {
                            trig<F> d;
                            d.run(g);
                        }});
    };
#if PART == 0
    flist<S32<16>, S32W<16>, S16<8>, S16<10>, S32<8>, S32<12>, S32<20>, S32<24>, S32<16, true>>::each(go);
#else
    flist<S64<32>, S64<16>, S64<24>, S64<48>, S64<32, true>>::each(go);
#endif
    run_jobs(std::move(jobs));
#if PART == 0
    u64 stride = step(1, 23);
    parallel("trig s32.16 sweep", (u64(1) << 32) / stride, 1 << 16, [&](rng_t&, u64 b, u64 e)
             {
                 trig<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.one((int32_t)(uint32_t)(i * stride + opt.seed % stride));
             });
#endif
}
