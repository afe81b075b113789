#define VF_QUICK 20
// C12: logarithms.
#include "formats.hpp"
using namespace vf;

template <typename F>
struct lg
{
    using M = fmt<F>;
    using T = typename M::store;
    using real = std::conditional_t<(M::bits > 32), long double, double>;
    meter_t m2{std::string("log2 ") + M::name()}, me{std::string("log ") + M::name()}, mx{std::string("log10 ") + M::name()};
    static constexpr i128 one_ = (i128)1 << M::frac;
    real u = std::ldexp((real)1, -(int)M::frac);

    void cmp(meter_t& m, const char* what, T a, F got, real want, real bound)
    {
        at(what, M::name(), (i64)a);
        m.see((i128)a);
        const real e = std::fabs((real)got.internal_value() - want);
        m.ratio((double)(e / bound), (i64)a);
        if(!(e <= bound))
            fail(std::string(what) + " " + M::name(), strf("raw %s: raw %s, expected %.12Lg (error %.4Lg units, allowed %.4Lg)", str128((i128)a).c_str(), str128((i128)got.internal_value()).c_str(), (long double)want, (long double)e, (long double)bound));
    }
    void one(T a)
    {
        if(a <= 0)
            return;
        const F x = M::mk(a);
        const real v = (real)a * u;
        const real S = std::ldexp((real)1, (int)M::frac);
        const real w2 = std::log2(v);
        // the logarithm has to be representable
        if(M::is_signed ? !(std::fabs(w2) < std::ldexp((real)1, M::ibits) * (real)0.999) : (i128)a < one_)
            return;
        at("log2", M::name(), (i64)a);
        const F l2 = eirin::log2(x);
        cmp(m2, "log2", a, l2, w2 * S, 4);
        if((a & (a - 1)) == 0)
        {
            // powers of two
            i128 w = (i128)(63 - __builtin_clzll((u64)a) - (int)M::frac) * one_;
            if((i128)l2.internal_value() != w)
                fail(std::string("log2 power of two ") + M::name(), "raw " + str128((i128)a) + ": raw " + str128((i128)l2.internal_value()));
        }
        // so do the constants they divide by
        if constexpr(M::ibits < 2 || M::frac < 3 || M::frac > 50)
            return;
        at("log", M::name(), (i64)a);
        cmp(me, "log", a, eirin::log(x), std::log(v) * S, 3 + std::fabs(std::log(v)) * (real)0.75);
        at("log10", M::name(), (i64)a);
        cmp(mx, "log10", a, eirin::log10(x), std::log10(v) * S, (real)2.2 + std::fabs(std::log10(v)) * (real)0.4);
        // never decreases
        if(a < std::numeric_limits<T>::max())
        {
            const F n = M::mk((i128)a + 1);
            if(eirin::log2(n) < l2)
                fail(std::string("log2 order ") + M::name(), "log2 of raw " + str128((i128)a) + " is more than that of the next number");
        }
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; ++a)
                one((T)a);
        for(T a : v)
            one(a);
        for(u64 i = 0, n = reps(5000000, 100000); i < n; ++i)
        {
            one(random_raw<T>(g, v));
            i128 k = one_ + (i64)(g.next() % (u64)(one_ / 8 + 1)) - one_ / 16;
            if(fits<T>(k))
                one((T)k);
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("log ") + fmt<F>::name(), [](rng_t& g)
                        {
                            lg<F> d;
                            d.run(g);
                        }});
    };
    flist<U32<16>, U64<32>, U16<8>, U8<4>, U32<30>, U32<8>, U64<16>, S32W<16>, S16<4>, S16<12>, S8<3>, S8<5>, S32<1>, S32<29>, S32<30>, S64<1>, S64<62>, S64<60>, S64<50>, S16<14>, S16<8, true>, S32<24, true>, U32<16, true>, S32<16>, S32<12>, S32<20>, S32<24>, S32<16, true>, S64<32>, S64<16>, S64<24>, S64<40>, S64<48>, S64<32, true>, S32<8>, S16<8>>::each(go);
    run_jobs(std::move(jobs));
    u64 stride = step(1, 37);
    parallel("log s32.16 sweep", (u64(1) << 31) / stride, 1 << 16, [&](rng_t&, u64 b, u64 e)
             {
                 lg<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.one((int32_t)(uint32_t)(i * stride + opt.seed % stride));
             });
}
