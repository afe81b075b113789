#define VF_QUICK 10
// C05: conversions between fixed point formats.
#include "formats.hpp"
using namespace vf;

// raw value v with f1 fraction bits, as raw value with f2 fraction bits: exact when widening, else toward zero
// (or nearest, ties away from zero, for rounding formats)
static i128 oracle(i128 v, unsigned f1, unsigned f2, bool rounding)
{
    if(f2 >= f1)
    {
        unsigned d = f2 - f1;
        // only used when the result fits 64 bits; guard the shift
        i128 lim = (i128)1 << 126;
        if(d && (v > (lim >> d) || v < -(lim >> d)))
            return v > 0 ? lim : -lim;
        return v * ((i128)1 << d);
    }
    unsigned d = f1 - f2;
    bool neg = v < 0;
    u128 u = neg ? (u128)0 - (u128)v : (u128)v;
    u128 q = u >> d;
    if(rounding && ((u >> (d - 1)) & 1))
        ++q;
    return neg ? -(i128)q : (i128)q;
}

template <typename A, typename B>
struct conv
{
    using MA = fmt<A>;
    using MB = fmt<B>;
    using TA = typename MA::store;
    using TB = typename MB::store;
    std::string name = std::string(MA::name()) + "->" + MB::name();
    meter_t m{name};
    void one(TA a)
    {
        i128 want = oracle((i128)a, MA::frac, MB::frac, MB::rounding);
        if(!fits<TB>(want))
            return;
        at("conversion", name.c_str(), (i64)a);
        m.see((i128)a, want);
        const A x = MA::mk(a);
        B y(x);
        B z = static_cast<B>(x);
        B w = B::template from_fixed_num_value<MA::frac>(a);
        if((i128)y.internal_value() != want || !(y == z) || !(y == w))
            fail("convert " + name, "raw " + str128((i128)a) + " became raw " + str128((i128)y.internal_value()) + " / cast " + str128((i128)z.internal_value()) + " / from raw " + str128((i128)w.internal_value()) + ", expected raw " + str128(want));
        if(x.internal_value() != a)
            fail("source " + name, "the source changed: raw " + str128((i128)a));
        // widening keeps the value, so the way back is the identity
        if(MB::frac >= MA::frac)
        {
            A back(y);
            if(back.internal_value() != a)
                fail("round trip " + name, "raw " + str128((i128)a) + " came back as raw " + str128((i128)back.internal_value()));
        }
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<A>();
        if(sizeof(TA) <= 2)
            for(int a = 0; a < 65536; ++a)
                one((TA)a);
        for(TA a : v)
            one(a);
        // around the limits and the resolution of the destination
        for(TB b : interesting_of<B>())
            for(int k = -3; k <= 3; ++k)
            {
                i128 s = oracle((i128)b, MB::frac, MA::frac, false) + k;
                if(fits<TA>(s))
                    one((TA)s);
            }
        for(u64 i = 0, n = reps(20000000, 400000); i < n; ++i)
            one(random_raw<TA>(g, v));
    }
};

// the internal values with up to 63 bits fraction used for constants
template <typename B, unsigned f>
void literal_one(meter_t& m, i64 raw)
{
    using MB = fmt<B>;
    i128 want = oracle((i128)raw, f, MB::frac, MB::rounding);
    if(!fits<typename MB::store>(want))
        return;
    at("from_fixed_num_value", MB::name(), raw, f);
    m.see(raw, f);
    B w = B::template from_fixed_num_value<f>(raw);
    if((i128)w.internal_value() != want)
        fail(std::string("from_fixed_num_value ") + MB::name(), "raw " + str128(raw) + " with " + std::to_string(f) + " bits fraction became raw " + str128((i128)w.internal_value()) + ", expected " + str128(want));
}

template <typename A, typename... B>
void pairs(std::vector<job_t>& jobs, flist<B...>)
{
    (jobs.push_back({std::string("convert ") + fmt<A>::name() + "->" + fmt<B>::name(), [](rng_t& g)
                     {
                         conv<A, B> c;
                         c.run(g);
                     }}),
     ...);
    jobs.push_back({std::string("literal ") + fmt<A>::name(), [](rng_t& g)
                    {
                        meter_t m(std::string("literal ") + fmt<A>::name());
                        std::vector<i64> v = interesting<i64>(61);
                        for(u64 i = 0, n = reps(10000000, 300000); i < n; ++i)
                        {
                            i64 raw = i < v.size() ? v[i] : random_raw<i64>(g, v);
                            literal_one<A, 61>(m, raw);
                            literal_one<A, 60>(m, raw);
                            literal_one<A, 62>(m, raw);
                            literal_one<A, 32>(m, raw);
                            literal_one<A, 8>(m, raw);
                        }
                    }});
    if(std::is_convertible_v<A, eirin::fixed_num<int32_t, int64_t, 20, true>>)
        fail(std::string("explicit ") + fmt<A>::name(), "conversion between formats is implicit");
}

using dst = flist<S32<16>, S64<32>, S32<8>, S32<24>, S64<48>, S16<8>, S8<4>, U32<16>, U64<32>, U16<8>, S32<16, true>, S64<32, true>, S16<4, true>, S64<1>, U8<4>>;
void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>() { pairs<F>(jobs, dst{}); };
#if PART == 0
    flist<S32<16>, S32<24>, S32<1>, S32<30>>::each(go);
#elif PART == 1
    flist<S64<32>, S64<16>, S64<48>, S64<62>>::each(go);
#elif PART == 2
    flist<S16<8>, S8<4>, S8<7>, S16<15>, S16<4, true>>::each(go);
#elif PART == 3
    flist<U32<16>, U64<32>, U16<8>, U8<4>>::each(go);
#elif PART == 4
    flist<S16W<8>, U32<31>, U32<1>, U64<63>, U64<16>, U8<7>, U16<15>, S32<16, true>, S64<32, true>, S32W<16>, S64<63>>::each(go);
#endif
    run_jobs(std::move(jobs));
}
