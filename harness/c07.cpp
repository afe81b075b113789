#define VF_QUICK 6
// C07: rounding functions and remainders.
#include "formats.hpp"
using namespace vf;

static i128 fdiv(i128 n, i128 d)
{
    i128 q = n / d;
    return (n % d != 0 && ((n < 0) != (d < 0))) ? q - 1 : q;
}

template <typename F>
struct rnd
{
    using M = fmt<F>;
    using T = typename M::store;
    meter_t m{std::string("rounding ") + M::name()}, mf{std::string("fmod ") + M::name()};
    static constexpr i128 one_ = (i128)1 << M::frac;
    void bad(const char* what, T a, T b, i128 got, i128 want)
    {
        fail(std::string(what) + " " + M::name(), "raw " + str128((i128)a) + (b ? " and raw " + str128((i128)b) : "") + ": raw " + str128(got) + ", expected " + str128(want));
    }
    void one(T a)
    {
        at("rounding", M::name(), (i64)a);
        const i128 A = (i128)a;
        m.see(A);
        const F x = M::mk(a);
        const i128 fl = fdiv(A, one_) * one_, ce = -fdiv(-A, one_) * one_, tr = A / one_ * one_;
        if(fits<T>(fl))
            if(i128 g = (i128)eirin::floor(x).internal_value(); g != fl)
                bad("floor", a, 0, g, fl);
        {
            // saturates when the next whole number is out of range
            i128 w = ce > hi_of<T>() ? hi_of<T>() : ce;
            if(i128 g = (i128)eirin::ceil(x).internal_value(); g != w)
                bad("ceil", a, 0, g, w);
        }
        if constexpr(M::ibits > 0)
        {
            if(i128 g = (i128)eirin::trunc(x).internal_value(); g != tr)
                bad("trunc", a, 0, g, tr);
            i128 mag = A < 0 ? -A : A;
            i128 ro = (mag + one_ / 2) / one_ * one_;
            if(A < 0)
                ro = -ro;
            if(fits<T>(ro))
                if(i128 g = (i128)eirin::round(x).internal_value(); g != ro)
                    bad("round", a, 0, g, ro);
        }
        {
            // saturates at the lowest value
            i128 w = A < 0 ? std::min<i128>(-A, hi_of<T>()) : A;
            if(i128 g = (i128)eirin::abs(x).internal_value(); g != w)
                bad("abs", a, 0, g, w);
        }
        if(fits<T>(fl))
        {
            F ip = M::mk(0x55);
            F fr = eirin::modf(x, ip);
            if((i128)ip.internal_value() != fl || (i128)fr.internal_value() != A - fl)
                bad("modf", a, 0, (i128)fr.internal_value(), A - fl);
        }
    }
    void two(T a, T b)
    {
        if(i128 g = (i128)eirin::min(M::mk(a), M::mk(b)).internal_value(), w = a < b ? a : b; g != w)
            bad("min", a, b, g, w);
        if(i128 g = (i128)eirin::max(M::mk(a), M::mk(b)).internal_value(), w = a < b ? b : a; g != w)
            bad("max", a, b, g, w);
        if(b == 0)
            return;
        const i128 A = (i128)a, B = (i128)b;
        // the quotient has to be representable
        i128 num = A * one_;
        i128 q;
        if(M::rounding)
        {
            i128 n2 = num < 0 ? -num : num, d2 = B < 0 ? -B : B;
            q = n2 / d2;
            if(n2 % d2 >= d2 - n2 % d2)
                ++q;
            if((num < 0) != (B < 0))
                q = -q;
        }
        else
            q = num / B;
        if(!fits<T>(q) || !fits<T>(fdiv(q, one_) * one_))
            return;
        // and its multiple of b
        if(!fits<T>(fdiv(q, one_) * B))
            return;
        if(!fits<T>(A - fdiv(q, one_) * B))
            return;
        at("fmod", M::name(), (i64)a, (i64)b);
        mf.see(A, B);
        const F x = M::mk(a), y = M::mk(b);
        i128 r = (i128)eirin::fmod(x, y).internal_value();
        // a - n * b for a whole n
        if((A - r) % B != 0)
        {
            bad("fmod congruence", a, b, r, A - fdiv(A, B) * B);
            return;
        }
        // with the sign of b and smaller than b, up to the resolution of the quotient
        // -2^-f < r / b < 1  (rounding formats may round the quotient up to a whole number: -2^-f <= r/b)
        i128 rs = B < 0 ? -r : r, bs = B < 0 ? -B : B;
        bool ok = rs < bs && rs * one_ >= -bs;
        if(!M::rounding && rs * one_ <= -bs)
            ok = false;
        if(!ok)
            bad("fmod range", a, b, r, A - fdiv(A, B) * B);
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; ++a)
                one((T)a);
        for(T a : v)
            one(a);
        for(u64 i = 0, n = reps(50000000, 1000000); i < n; ++i)
            one(random_raw<T>(g, v));
        if constexpr(M::bits < 64)
        {
            if(sizeof(T) == 1)
                for(int a = 0; a < 256; ++a)
                    for(int b = 0; b < 256; ++b)
                        two((T)a, (T)b);
            for(T a : v)
                for(T b : v)
                    two(a, b);
            for(u64 i = 0, n = reps(50000000, 1000000); i < n; ++i)
            {
                T a = random_raw<T>(g, v), b = random_raw<T>(g, v);
                two(a, b);
                // near a multiple of b
                i128 k = (i128)b * (i64)(g.below(200)) + (i64)g.below(5) - 2;
                if(fits<T>(k))
                    two((T)k, b);
            }
        }
        else
        {
            // A * 2^f has to fit 128 bits, so keep |a| < 2^(126-f): always true for 64 bit types
            for(u64 i = 0, n = reps(30000000, 1000000); i < n; ++i)
            {
                T a = random_raw<T>(g, v), b = random_raw<T>(g, v);
                two(a, b);
                i128 k = (i128)b * (i64)(g.below(200)) + (i64)g.below(5) - 2;
                if(fits<T>(k))
                    two((T)k, b);
            }
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("rounding ") + fmt<F>::name(), [](rng_t& g)
                        {
                            rnd<F> d;
                            d.run(g);
                        }});
    };
#if PART == 0
    all8::each(go);
    all8r::each(go);
    all16::each(go);
#else
    all32a::each(go);
    all32b::each(go);
    flist<S64<1>, S64<16>, S64<31>, S64<32>, S64<33>, S64<48>, S64<62>, U64<16>, U64<32>, S64<32, true>, S64<16, true>>::each(go);
#endif
    run_jobs(std::move(jobs));
#if PART == 1
    if(!opt.tiny)
        parallel("rounding s32.16 exhaustive", u64(1) << 32, 1 << 22, [](rng_t&, u64 b, u64 e)
                 {
                     rnd<S32<16>> d;
                     for(u64 i = b; i < e; ++i)
                         d.one((int32_t)(uint32_t)i);
                 });
#endif
}
