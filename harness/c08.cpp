#define VF_QUICK 4
// C08: square roots and lengths.
#include "formats.hpp"
using namespace vf;

template <typename F>
struct root
{
    using M = fmt<F>;
    using T = typename M::store;
    static constexpr bool exact16 = std::is_same_v<T, int32_t> && M::frac == 16;
    meter_t m{std::string("sqrt ") + M::name()}, mh{std::string("hypot ") + M::name()};

    // |x^2 - v| <= tol (in real terms), or x within one unit in the last place of the root
    // everything in raw units: v has f fraction bits, q*q has 2f
    bool good(i128 v, i128 q, double& ratio)
    {
        u128 vv = (u128)v << M::frac; // v as a square, < 2^127
        // one unit: (q-1)^2 < vv < (q+1)^2
        u128 qq = (u128)q * (u128)q;
        i128 d = (i128)(qq > vv ? qq - vv : vv - qq);
        if constexpr(exact16)
        {
            // the root, rounded down to the resolution
            ratio = q ? (double)d / (2.0 * (double)q + 1) : (double)vv;
            return qq <= vv && vv < (u128)(q + 1) * (u128)(q + 1);
        }
        else
        {
            u128 lo = q > 1 ? (u128)(q - 2) * (u128)(q - 2) : 0, hi = (u128)(q + 2) * (u128)(q + 2);
            // 5 * 2^-16 on the square (when the format resolves that), plus the rounding of the square and of the root
            double tol = std::max(std::ldexp(5.0, 2 * (int)M::frac - 16), 0.0) + 2.0 * (double)q * 1.0 + std::ldexp(2.0, (int)M::frac);
            ratio = (double)d / tol;
            return ratio <= 1 || ((q <= 1 || lo < vv) && vv < hi);
        }
    }
    void one(T a)
    {
        at("sqrt", M::name(), (i64)a);
        const i128 A = (i128)a;
        m.see(A);
        i128 q = (i128)eirin::sqrt(M::mk(a)).internal_value();
        if(A < 0)
        {
            if(q != -((i128)1 << M::frac))
                fail(std::string("sqrt negative ") + M::name(), "raw " + str128(A) + ": raw " + str128(q) + ", expected the error value -1");
            return;
        }
        double ratio = 0;
        if(q < 0 || !good(A, q, ratio))
            fail(std::string("sqrt ") + M::name(), "raw " + str128(A) + ": raw " + str128(q) + strf(", the root is %.10Lg raw", sqrtl(ldexpl((long double)A, (int)M::frac))));
        m.ratio(ratio, (i64)a);
    }
    // hypot(x, y[, z]) = sqrt of the sum of the squares, when the sum is representable
    void len(T a, T b, T c, bool three)
    {
        i128 s2 = 0;
        for(i128 k : {(i128)a, (i128)b, three ? (i128)c : (i128)0})
        {
            const u128 kk = (u128)(k < 0 ? -k : k) * (u128)(k < 0 ? -k : k);
            i128 k2 = (i128)(M::rounding ? (kk + ((u128)1 << (M::frac - 1))) >> M::frac : kk >> M::frac);
            if(!fits<T>(k2))
                return;
            s2 += k2;
        }
        if(!fits<T>(s2))
            return;
        at("hypot", M::name(), (i64)a, (i64)b, (i64)c);
        mh.see((i128)a, (i128)b);
        const F x = M::mk(a), y = M::mk(b), z = M::mk(c);
        i128 q = three ? (i128)eirin::hypot(x, y, z).internal_value() : (i128)eirin::hypot(x, y).internal_value();
        double ratio = 0;
        if(q < 0 || !good(s2, q, ratio))
            fail(std::string("hypot ") + M::name(), "raw " + str128((i128)a) + ", " + str128((i128)b) + (three ? ", " + str128((i128)c) : std::string()) + ": raw " + str128(q));
        // symmetric
        i128 p = three ? (i128)eirin::hypot(z, x, y).internal_value() : (i128)eirin::hypot(y, x).internal_value();
        if(p != q)
            fail(std::string("hypot symmetry ") + M::name(), "raw " + str128((i128)a) + ", " + str128((i128)b) + ": " + str128(q) + " and " + str128(p));
        mh.ratio(ratio, (i64)a, (i64)b);
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; ++a)
                one((T)a);
        for(T a : v)
            one(a);
        // squares and their neighbours
        for(u64 i = 0, n = reps(20000000, 300000); i < n; ++i)
        {
            one(random_raw<T>(g, v));
            T k = random_raw<T>(g, v);
            i128 s = (i128)(((u128)((i128)k < 0 ? -(i128)k : (i128)k) * (u128)((i128)k < 0 ? -(i128)k : (i128)k)) >> M::frac);
            for(int d = -1; d <= 1; ++d)
                if(fits<T>(s + d) && s + d >= 0)
                    one((T)(s + d));
            len(k, random_raw<T>(g, v), random_raw<T>(g, v), i & 1);
            // small enough for the sum to fit
            unsigned sh = M::is_signed ? (M::bits - M::frac) / 2 + 1 : (M::bits - M::frac) / 2 + 1;
            len((T)(random_raw<T>(g, v) >> sh), (T)(random_raw<T>(g, v) >> sh), (T)(random_raw<T>(g, v) >> sh), i & 1);
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("sqrt ") + fmt<F>::name(), [](rng_t& g)
                        {
                            root<F> d;
                            d.run(g);
                        }});
    };
    flist<U32<16>, U64<32>, U16<8>, S32W<16>, U32<8>, U64<16>, U32<16, true>, S32<30>, S64<62>, S32<1>, S64<1>, U32<31>, U64<63>, U8<4>, S8<6>, S8<1>, S16<14>, U8<7>, U16<15>, U64<62>, S32<16>, S64<32>, S64<16>, S64<24>, S64<48>, S32<8>, S32<12>, S32<20>, S32<24>, S16<8>, S8<4>, S64<32, true>, S32<16, true>, S32<20, true>>::each(go);
    run_jobs(std::move(jobs));
    // every non-negative number of the default 32 bit format (a stride of it in the quick tier)
    u64 stride = step(1, 1);
    parallel("sqrt s32.16 exhaustive", (u64(1) << 31) / stride, 1 << 20, [&](rng_t&, u64 b, u64 e)
             {
                 root<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.one((int32_t)(uint32_t)(i * stride + opt.seed % stride));
             });
}
