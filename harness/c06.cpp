#define VF_QUICK 8
// C06: the parts of a fixed number: sign, integral part, fractional part, raw representation, steps of one.
#include "formats.hpp"
using namespace vf;

template <typename F>
struct deco
{
    using M = fmt<F>;
    using T = typename M::store;
    meter_t m{std::string("parts ") + M::name()};
    void bad(const char* what, T a, i128 got, i128 want)
    {
        fail(std::string(what) + " " + M::name(), "raw " + str128((i128)a) + ": " + str128(got) + ", expected " + str128(want));
    }
    void one(T a)
    {
        at("parts", M::name(), (i64)a);
        i128 A = (i128)a;
        m.see(A);
        const F x = M::mk(a);
        if(x.internal_value() != a)
            bad("internal value", a, (i128)x.internal_value(), A);
        const bool neg = A < 0;
        if(signbit(x) != neg)
            bad("signbit", a, signbit(x), neg);
        const i128 mag = neg ? -A : A, one = (i128)1 << M::frac;
        const i128 ip = mag / one, fp = mag % one;
        if((i128)x.integral_part() != ip)
            bad("integral_part", a, (i128)x.integral_part(), ip);
        if((i128)x.fractional_part() != (neg ? -fp : fp))
            bad("fractional_part", a, (i128)x.fractional_part(), neg ? -fp : fp);
        if constexpr(M::is_signed)
            if(!neg && (i128)x.raw_integral_part() != ip)
                bad("raw_integral_part", a, (i128)x.raw_integral_part(), ip);
        // the parts rebuild the number
        i128 re = (i128)x.integral_part() * one;
        re = neg ? -re + (i128)x.fractional_part() : re + (i128)x.fractional_part();
        if(re != A)
            bad("rebuilt", a, re, A);
        // one itself has to be representable
        if(M::ibits > 0 && fits<T>(A + one))
        {
            F p = x, q = x;
            F r1 = ++p, r2 = q++;
            if((i128)p.internal_value() != A + one || (i128)q.internal_value() != A + one)
                bad("increment", a, (i128)p.internal_value(), A + one);
            if(!(r1 == p) || !(r2 == x))
                bad("value of increment", a, (i128)r1.internal_value(), A + one);
        }
        if(M::ibits > 0 && fits<T>(A - one))
        {
            F p = x, q = x;
            F r1 = --p, r2 = q--;
            if((i128)p.internal_value() != A - one || (i128)q.internal_value() != A - one)
                bad("decrement", a, (i128)p.internal_value(), A - one);
            if(!(r1 == p) || !(r2 == x))
                bad("value of decrement", a, (i128)r1.internal_value(), A - one);
        }
        // copies, assignments and the bytes of the object
        F c(x), d = M::mk(0);
        d = c;
        T bytes;
        std::memcpy(&bytes, &d, sizeof bytes);
        if(!(c == x) || !(d == x) || bytes != a)
            bad("copy", a, (i128)bytes, A);
    }
    void run(rng_t& g)
    {
        static_assert(std::is_trivially_copyable_v<F>);
        if(sizeof(F) != sizeof(T) || F::precision != M::frac || !eirin::is_fixed_point_v<F> || eirin::is_fixed_point_v<T>)
            fail(std::string("layout ") + M::name(), "size, precision or type trait");
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; ++a)
                one((T)a);
        for(T a : v)
            one(a);
        for(u64 i = 0, n = reps(100000000, 2000000); i < n; ++i)
            one(random_raw<T>(g, v));
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("parts ") + fmt<F>::name(), [](rng_t& g)
                        {
                            deco<F> d;
                            d.run(g);
                        }});
    };
    all8::each(go);
    all8r::each(go);
    all16::each(go);
    all32a::each(go);
    all32b::each(go);
    all64a::each(go);
    all64b::each(go);
    run_jobs(std::move(jobs));
    if(!opt.tiny)
        parallel("parts s32.16 exhaustive", u64(1) << 32, 1 << 22, [](rng_t&, u64 b, u64 e)
                 {
                     deco<S32<16>> d;
                     for(u64 i = b; i < e; ++i)
                         d.one((int32_t)(uint32_t)i);
                 });
}
