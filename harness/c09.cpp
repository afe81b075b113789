#define VF_QUICK 8
// C09: cube roots.
#include "formats.hpp"
using namespace vf;

template <typename F>
struct root
{
    using M = fmt<F>;
    using T = typename M::store;
    meter_t m{std::string("cbrt ") + M::name()};

    void one(T a)
    {
        const i128 A = (i128)a;
        at("cbrt", M::name(), (i64)a);
        m.see(A);
        const i128 q = (i128)eirin::cbrt(M::mk(a)).internal_value();
        const long double u = std::ldexp(1.0L, -(int)M::frac);
        const long double v = (long double)a * u, x = (long double)q * u;
        if(q != 0 && (q < 0) != (A < 0))
            fail(std::string("cbrt sign ") + M::name(), "raw " + str128(A) + ": raw " + str128(q));
        // 10 * 2^-16 on the cube, plus the rounding of the products
        const long double tol = std::ldexp(10.0L, -16) + (6 * x * x + 4 * std::fabs(x) + 2) * u;
        const long double err = std::fabs(x * x * x - v);
        m.ratio((double)(err / tol), (i64)a);
        if(!(err <= tol))
            fail(std::string("cbrt ") + M::name(), "raw " + str128(A) + ": raw " + str128(q) + strf(", the cube root of %.12Lg is %.12Lg but got %.12Lg", v, std::cbrt(v), x));
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; ++a)
                one((T)a);
        for(T a : v)
            one(a);
        for(u64 i = 0, n = reps(5000000, 100000); i < n; ++i)
        {
            one(random_raw<T>(g, v));
            // cubes and their neighbours
            int64_t k = (int64_t)(random_raw<T>(g, v));
            k >>= M::bits / 2;
            i128 s = (i128)k * k;
            s = (s >> M::frac) * k >> M::frac;
            for(int d = -1; d <= 1; ++d)
                if(fits<T>(s + d))
                    one((T)(s + d));
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("cbrt ") + fmt<F>::name(), [](rng_t& g)
                        {
                            root<F> d;
                            d.run(g);
                        }});
    };
    flist<U32<16>, U64<32>, S16<8>, U16<8>, S32W<16>, S16<6>, S8<2>, S32<24>, S32<28>, S64<56>, S64<1>, S32<1>, S32<8>, S16<12>, U8<4>, S8<4>, U32<28>, S64<48>, S32<16>, S64<32>, S64<16>, S64<24>, S64<40>, S32<12>, S32<20>, S64<32, true>, S32<16, true>>::each(go);
    run_jobs(std::move(jobs));
    u64 stride = step(3, 151);
    parallel("cbrt s32.16 sweep", (u64(1) << 32) / stride, 1 << 16, [&](rng_t&, u64 b, u64 e)
             {
                 root<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.one((int32_t)(uint32_t)(i * stride + opt.seed % stride));
             });
}
