#define VF_QUICK 10
// C13: exponentials and powers.
#include "formats.hpp"
using namespace vf;

template <typename F>
struct ex
{
    using M = fmt<F>;
    using T = typename M::store;
    using real = long double;
    meter_t me{std::string("exp ") + M::name()}, mp{std::string("pow int ") + M::name()}, mn{std::string("pow -int ") + M::name()}, mf{std::string("pow fixed ") + M::name()};
    static constexpr i128 one_ = (i128)1 << M::frac;
    real S = std::ldexp((real)1, (int)M::frac), u = 1 / S;
    real top = std::ldexp((real)1, M::ibits) * (real)0.99;

    void cmp(meter_t& m, const char* what, T a, i64 b, F got, real want, real bound)
    {
        m.see((i128)a, b);
        if(!(std::fabs(want) + bound < std::ldexp((real)1, M::ibits))) // a result of the allowed accuracy might not fit
            return;
        const real e = std::fabs((real)got.internal_value() * u - want);
        m.ratio((double)(e / bound), (i64)a, b);
        if(!(e <= bound))
            fail(std::string(what) + " " + M::name(), strf("raw %s and %lld: %.15Lg, expected %.15Lg (allowed error %.4Lg)", str128((i128)a).c_str(), (long long)b, (real)got.internal_value() * u, want, bound));
    }
    void e_one(T a)
    {
        const real x = (real)a * u;
        const real want = std::exp(x);
        if(!(want < top))
            return;
        at("exp", M::name(), (i64)a);
        cmp(me, "exp", a, 0, eirin::exp(M::mk(a)), want, 2 * u + want * (1 + std::fabs(x)) * (M::frac > 16 ? (real)1.3e-6 + 2 * u : 2 * u));
    }
    void p_one(T a, int e)
    {
        if(a == 0)
            return;
        const real x = (real)a * u;
        const real want = std::pow(x, (real)e);
        if(!(std::fabs(want) < top))
            return;
        at("pow", M::name(), (i64)a, e);
        if(e >= 0)
            cmp(mp, "pow int", a, e, eirin::pow(M::mk(a), e), want, (1 + e) * std::max<real>(1, std::fabs(want)) * u);
        else
        {
            // the inverse of the base is rounded to the resolution first
            if(!(std::fabs(1 / x) < top))
                return;
            cmp(mn, "pow -int", a, e, eirin::pow(M::mk(a), e), want, 2 * (1 - e) * (1 + std::fabs(want) * std::fabs(x)) * u);
        }
    }
    void f_one(T a, T b)
    {
        const real x = (real)a * u, y = (real)b * u;
        // the logarithm of a base below one is negative
        if(a <= 0 || (!M::is_signed && (i128)a < one_))
            return;
        const real want = std::pow(x, y);
        real ip = std::trunc(y);
        if(!(want < top / 2) || !(std::fabs(1 / x) < top) || !(std::pow(x, ip) < top) || std::fabs(y) > 64)
            return;
        at("pow fixed", M::name(), (i64)a, (i64)b);
        const F got = eirin::pow(M::mk(a), M::mk(b));
        // the power of the whole part, and exp(fraction * log(x)), each to its own accuracy
        const real P = std::pow(x, ip), L = std::log(x), fr = y - ip, E = std::exp(fr * L);
        const real eP = ip >= 0 ? (1 + ip) * std::max<real>(1, P) * u : 2 * (1 - ip) * (1 + P * x) * u;
        const real eArg = std::fabs(fr) * (3 + (real)0.75 * std::fabs(L)) * u + 2 * u;
        const real eE = 2 * u + E * (1 + std::fabs(fr * L)) * (M::frac > 16 ? (real)1.3e-6 + 2 * u : 2 * u) + (real)1.1 * E * eArg;
        cmp(mf, "pow fixed", a, (i64)b, got, want, eP * (E + eE) + P * eE + 2 * u);
        if(ip == y)
        {
            F w = eirin::pow(M::mk(a), (int)ip);
            if(!(w == got))
                fail(std::string("pow of whole exponent ") + M::name(), "raw " + str128((i128)a) + " to " + str128((i128)ip) + ": raw " + str128((i128)got.internal_value()) + " and raw " + str128((i128)w.internal_value()));
        }
    }
    void exact()
    {
        auto eq = [&](const char* what, F got, i128 want)
        {
            mp.see(want, 7);
            if((i128)got.internal_value() != want)
                fail(std::string(what) + " " + M::name(), "raw " + str128((i128)got.internal_value()) + ", expected raw " + str128(want));
        };
        eq("exp(0)", eirin::exp(M::mk(0)), one_);
        eq("pow(0, 0)", eirin::pow(M::mk(0), 0), one_);
        eq("pow(0, 3)", eirin::pow(M::mk(0), 3), 0);
        for(int k = 1; k < 40; ++k)
        {
            eq("pow(0, k)", eirin::pow(M::mk(0), k), 0);
            eq("pow(0, -k)", eirin::pow(M::mk(0), -k), 0);
            if(fits<T>((i128)k * one_ / 2))
            {
                eq("pow(0, k / 2.0)", eirin::pow(M::mk(0), M::mk((T)((i128)k * one_ / 2))), 0);
                if constexpr(M::is_signed)
                    eq("pow(0, -k / 2.0)", eirin::pow(M::mk(0), M::mk((T)(-(i128)k * one_ / 2))), 0);
            }
        }
        // the type of the exponent makes no difference
        auto types = [&](T a, int k, F want)
        {
            const i128 w = (i128)want.internal_value();
            eq("pow with int8_t", eirin::pow(M::mk(a), (int8_t)k), w);
            eq("pow with int16_t", eirin::pow(M::mk(a), (int16_t)k), w);
            eq("pow with int64_t", eirin::pow(M::mk(a), (int64_t)k), w);
            if(k >= 0)
            {
                eq("pow with uint8_t", eirin::pow(M::mk(a), (uint8_t)k), w);
                eq("pow with uint16_t", eirin::pow(M::mk(a), (uint16_t)k), w);
                eq("pow with uint32_t", eirin::pow(M::mk(a), (uint32_t)k), w);
                eq("pow with uint64_t", eirin::pow(M::mk(a), (uint64_t)k), w);
            }
        };
        for(i128 a : {one_ / 2, one_, -one_, 2 * one_, one_ / 3, one_ + one_ / 3, -3 * one_ / 2, (i128)0})
            if(fits<T>(a))
            for(int k = -9; k <= 9; ++k)
                types((T)a, k, eirin::pow(M::mk((T)a), k));
        for(int64_t k : {(int64_t)1 << 20, ((int64_t)1 << 31) + 1, ((int64_t)1 << 62) + 3, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min() + 1, (int64_t)-(1ll << 40)})
        {
            eq("pow(1, huge)", eirin::pow(M::mk(one_), k), one_);
            if constexpr(M::is_signed)
                eq("pow(-1, huge)", eirin::pow(M::mk(-one_), k), (k & 1) ? -one_ : one_);
            if(k > 0)
                eq("pow(1/2, huge)", eirin::pow(M::mk(one_ / 2), k), 0);
            else
                eq("pow(2, -huge)", eirin::pow(M::mk(2 * one_), k), 0);
        }
        // the extreme exponents of every type, of which the lowest has no opposite
        auto extremes = [&](auto lo, auto hi)
        {
            for(auto k : {lo, hi, (decltype(lo))(lo + 1), (decltype(lo))(hi - 1)})
            {
                const bool odd = k & 1;
                eq("pow(1, extreme)", eirin::pow(M::mk(one_), k), one_);
                if constexpr(M::is_signed)
                    eq("pow(-1, extreme)", eirin::pow(M::mk(-one_), k), odd ? -one_ : one_);
                if((i128)k > 100)
                    eq("pow(1/2, extreme)", eirin::pow(M::mk(one_ / 2), k), 0);
                else if((i128)k < -100)
                    eq("pow(2, -extreme)", eirin::pow(M::mk(2 * one_), k), 0);
            }
        };
        auto both = [&](auto zero)
        {
            using E = decltype(zero);
            extremes(std::numeric_limits<E>::min(), std::numeric_limits<E>::max());
        };
        both((int8_t)0), both((int16_t)0), both((int32_t)0), both((int64_t)0), both((long long)0);
        both((uint8_t)0), both((uint16_t)0), both((uint32_t)0), both((uint64_t)0);
        eq("pow(1/2, unsigned huge)", eirin::pow(M::mk(one_ / 2), ~0ull), 0);
        eq("pow(0, 0.0)", eirin::pow(M::mk(0), M::mk(0)), one_);
        eq("pow(0, 1.5)", eirin::pow(M::mk(0), M::mk(one_ + one_ / 2)), 0);
        for(int k = 0; k < M::ibits; ++k)
            eq("pow(2, k)", eirin::pow(M::mk(2 * one_), k), one_ << k);
        for(int k = 0; k < M::ibits && k <= (int)M::frac; ++k)
            eq("pow(2, -k)", eirin::pow(M::mk(2 * one_), -k), one_ >> k);
        for(int k = 0; k < M::ibits && M::is_signed; ++k)
            eq("pow(-2, k)", eirin::pow(M::mk(-2 * one_), k), (k & 1) ? -(one_ << k) : one_ << k);
        for(T a : interesting_of<F>())
            {
                eq("pow(x, 0)", eirin::pow(M::mk(a), 0), one_);
                eq("pow(x, 1)", eirin::pow(M::mk(a), 1), (i128)a);
                eq("pow(1, n)", eirin::pow(M::mk(one_), (int)(a & 1023)), one_);
            }
    }
    void run(rng_t& g)
    {
        exact();
        auto v = interesting_of<F>();
        for(T a : v)
        {
            e_one(a);
            for(int e = -20; e <= 24; ++e)
                p_one(a, e);
            for(T b : v)
                f_one(a, b);
        }
        for(u64 i = 0, n = reps(3000000, 100000); i < n; ++i)
        {
            e_one(random_raw<T>(g, v));
            i128 k = (i128)(g.next() % (u64)(24 * one_)) - 12 * one_;
            if(fits<T>(k))
                e_one((T)k);
            T a = random_raw<T>(g, v);
            p_one(a, (int)g.below(40) - 20);
            f_one(a, random_raw<T>(g, v));
            // near one and of moderate size
            i128 b = (i128)(g.next() % (u64)(4 * one_)) + 1;
            if(fits<T>(b))
            {
                p_one((T)b, (int)g.below(30) - 12);
                if constexpr(M::is_signed)
                    p_one((T)-b, (int)g.below(30) - 12);
                i128 y = (i128)(g.next() % (u64)(12 * one_)) - 6 * one_;
                if(fits<T>(y))
                    f_one((T)b, (T)y);
            }
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("exp ") + fmt<F>::name(), [](rng_t& g)
                        {
                            ex<F> d;
                            d.run(g);
                        }});
    };
    flist<U32<16>, U64<32>, U16<8>, U32<12>, U64<24>, S16<8>, S16<6>, S32W<16>, S32<8>, S32<24>, S64<48>, U32<16, true>, S16<8, true>, S8<4>, U8<4>, S32<16>, S32<12>, S32<20>, S32<16, true>, S64<32>, S64<16>, S64<24>, S64<40>, S64<32, true>>::each(go);
    run_jobs(std::move(jobs));
    // every argument of the default 32 bit format whose exponential is representable, and below
    u64 stride = step(1, 1);
    parallel("exp s32.16 exhaustive", (u64)(32 << 16) / stride, 1 << 14, [&](rng_t&, u64 b, u64 e)
             {
                 ex<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.e_one((int32_t)(i * stride + opt.seed % stride) - (20 << 16));
             });
}
