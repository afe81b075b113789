#define VF_QUICK 60
#ifndef PART
#    define PART 0
#endif
// C28: degrees and radians.
#include "formats.hpp"
#include <quadmath.h>
using namespace vf;
typedef __float128 quad;

template <typename F>
struct watch
{
    using M = fmt<F>;
    using T = typename M::store;
    const quad pi = 4 * atanq((quad)1);
    meter_t md{std::string("degrees ") + M::name()}, mr{std::string("radians ") + M::name()}, rt{std::string("round trip ") + M::name()}, mo{std::string("order ") + M::name()};
    const quad u = scalbnq((quad)1, -(int)M::frac);
    quad val(F x) { return scalbnq((quad)(i128)x.internal_value(), -(int)M::frac); }
    void one(T a)
    {
        F x = M::mk(a);
        const quad v = val(x), lim = scalbnq((quad)(i128)hi_of<T>(), -(int)M::frac);
        const quad want = v * 180 / pi;
        if(fabsq(want) * (1 + u / 3) < lim * (quad)0.999 - 400 * u)
        {
            at("degrees", M::name(), (i64)a);
            F d = eirin::degrees(x);
            md.see((i128)a);
            // a unit of the quotient is worth 180 units, and pi is stored within a unit
            const quad tol = 181 * u + fabsq(want) * u / 3 + u;
            const quad err = fabsq(val(d) - want);
            md.ratio((double)(err / tol), (i64)a);
            if(!(err <= tol))
                fail(std::string("degrees ") + M::name(), strf("raw %lld: %.12g degrees but got %.12g", (long long)a, (double)want, (double)val(d)));
            if(a != std::numeric_limits<T>::max())
            {
                mo.see((i128)a);
                if(eirin::degrees(M::mk((i128)a + 1)) < d)
                    fail(std::string("degrees order ") + M::name(), "raw " + str128((i128)a));
            }
            at("radians of degrees", M::name(), (i64)a);
            F back = eirin::radians(d);
            rt.see((i128)a);
            const quad t2 = (tol + 4 * u) * pi / 180 + fabsq(v) * u + 5 * u;
            if(!(fabsq(val(back) - v) <= t2))
                fail(std::string("round trip ") + M::name(), "raw " + str128((i128)a) + " came back as raw " + str128((i128)back.internal_value()));
        }
        {
            at("radians", M::name(), (i64)a);
            F r = eirin::radians(x);
            mr.see((i128)a);
            const quad w = v * pi / 180;
            const quad tol = 4 * u + u + fabsq(v) / 180 * u + u;
            const quad err = fabsq(val(r) - w);
            mr.ratio((double)(err / tol), (i64)a);
            if(!(err <= tol))
                fail(std::string("radians ") + M::name(), strf("raw %lld: %.12g radians but got %.12g", (long long)a, (double)w, (double)val(r)));
            if(a != std::numeric_limits<T>::max())
            {
                mo.see((i128)a);
                if(eirin::radians(M::mk((i128)a + 1)) < r)
                    fail(std::string("radians order ") + M::name(), "raw " + str128((i128)a));
            }
        }
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; ++a)
                one((T)a);
        for(T a : v)
            one(a);
        for(int k = -1440; k <= 1440; ++k)
            for(int d = -2; d <= 2; ++d)
            {
                if(fits<T>(((i128)k << M::frac) + d))
                    one((T)(((i128)k << M::frac) + d));
                i128 p = (i128)scalbnq(pi * k / 180, M::frac);
                if(fits<T>(p + d))
                    one((T)(p + d));
            }
        for(u64 i = 0, n = reps(600000, 15000); i < n; ++i)
            one(random_raw<T>(g, v));
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>() { jobs.push_back({std::string("angles ") + fmt<F>::name(), [](rng_t& g) { watch<F>().run(g); }}); };
    flist<S32<1>, S32<24>, S32<29>, S64<61>, U32<30>, S64<1>, S16<13>, S16<1>, S8<5>, S8<1>, U8<4>, U8<6>, U16<14>, U64<61>, S32W<16>, S16<8, true>, U32<16, true>, S64<56>, S32<16>, S64<32>, S32<8>, S32<20>, S64<16>, S64<40>, S64<52>, S16<6>, U32<16>, U64<32>, S32<16, true>, S64<32, true>>::each(go);
    run_jobs(std::move(jobs));
}
