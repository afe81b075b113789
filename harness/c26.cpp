#define VF_QUICK 20
#ifndef PART
#    define PART 0
#endif
// C26: the CORDIC and the table driven sine.
#include "formats.hpp"
#include <eirin/ext/cordic.hpp>
#include <eirin/detail/util.hpp>
#include <quadmath.h>
// The rotation is an internal name: where it has gone, or takes other parameters, only the public sine is judged.
namespace vf_absent
{
struct none
{};
template <typename T, typename I, unsigned f, bool r, size_t n, bool s>
none cordic(eirin::fixed_num<T, I, f, r>);
} // namespace vf_absent
namespace eirin::detail
{
using namespace vf_absent; // found only where eirin::detail has no such name itself
}
using namespace vf;
typedef __float128 quad;

template <typename F>
struct watch
{
    using M = fmt<F>;
    using T = typename M::store;
    meter_t m{std::string("cordic ") + M::name()}, od{std::string("cordic odd ") + M::name()};
    void one(T a)
    {
        at("cordic_sine", M::name(), (i64)a);
        const i128 s = (i128)eirin::cordic_sine(M::mk(a)).internal_value();
        m.see((i128)a);
        const long double u = std::ldexp(1.0L, -(int)M::frac), x = (long double)a * u;
        const long double want = (long double)sinq(scalbnq((quad)a, -(int)M::frac)), got = (long double)s * u;
        // rotation noise, plus the stored 2 pi being up to two units short once per turn
        const long double tol = (M::frac == 16 ? 4.2e-4L : 4e-8L) + 2 * u * (std::fabs(x) / 6.28L + 1);
        const long double err = std::fabs(got - want);
        m.ratio((double)(err / tol), (i64)a);
        if(!(err <= tol))
            fail(std::string("cordic ") + M::name(), strf("raw %lld: sin(%.12Lg) = %.12Lg but got %.12Lg", (long long)a, x, want, got));
        if(a > 0)
        {
            const i128 n = (i128)eirin::cordic_sine(M::mk(-(i128)a)).internal_value();
            od.see((i128)a);
            if(n != -s)
                fail(std::string("cordic odd ") + M::name(), "raw " + str128((i128)a) + ": raw " + str128(s) + " and raw " + str128(n));
        }
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        for(T a : v)
            one(a);
        // quarter turns and their neighbours
        for(int k = -2000; k <= 2000; ++k)
        {
            long double p = 3.14159265358979323846264338327950288L * k / 4 * std::ldexp(1.0L, (int)M::frac);
            for(int d = -2; d <= 2; ++d)
                if(fits<T>((i128)p + d))
                    one((T)((i128)p + d));
        }
        for(u64 i = 0, n = reps(3000000, 60000); i < n; ++i)
        {
            one(random_raw<T>(g, v));
            one((T)(i64)(g.below((u64)20 << M::frac) - ((u64)10 << M::frac)));
        }
    }
};

template <typename F, size_t N, bool sine>
constexpr bool rotates = requires(F x) {
    { eirin::detail::cordic<typename fmt<F>::store, typename fmt<F>::wide, fmt<F>::frac, fmt<F>::rounding, N, sine>(x) } -> std::same_as<F>;
};

// the rotation itself: sine and cosine, any number of iterations, other formats
template <typename F, size_t N, bool sine>
void rotation(rng_t& g)
{
    using M = fmt<F>;
    using T = typename M::store;
    if constexpr(!rotates<F, N, sine>)
    {
        notes["rotation"] = "not available by this name";
        return;
    }
    else
    {
        const std::string nm = std::string(sine ? "rotation sine " : "rotation cosine ") + M::name() + " " + std::to_string(N);
        meter_t m(nm), sy(nm + " symmetry");
        auto v = interesting_of<F>();
        const long double u = std::ldexp(1.0L, -(int)M::frac), limit = std::ldexp((long double)hi_of<T>(), -(int)M::frac);
        // what is left of the angle after N rotations, two steps lost in each of them, and an angle of the table that was read
        // with all but the last of its digits, to the 15 digits it is written with
        const long double noise = std::ldexp(1.0L, 1 - (int)N) + (18 + 3 * N) * u + N * 1e-15L;
        auto one = [&](T a)
        {
            const long double x = (long double)a * u;
            if(std::fabs(x) > limit - 4)
                return;
            at("cordic", sine ? "sine" : "cosine", (i64)a, (i64)N, (i64)M::frac);
            const F r = eirin::detail::cordic<T, typename M::wide, M::frac, M::rounding, N, sine>(M::mk(a));
            m.see((i128)a, N);
            const quad exact = scalbnq((quad)a, -(int)M::frac);
            const long double want = (long double)(sine ? sinq(exact) : cosq(exact)), got = (long double)r.internal_value() * u;
            const long double tol = noise + 2 * u * (std::fabs(x) / 6.28L + 1), err = std::fabs(got - want);
            m.ratio((double)(err / tol), (i64)a);
            if(!(err <= tol))
                fail(nm, strf("raw %lld: expected %.12Lg but got %.12Lg", (long long)a, want, got));
            if(a > 0)
            {
                const i128 n = (i128)eirin::detail::cordic<T, typename M::wide, M::frac, M::rounding, N, sine>(M::mk(-(i128)a)).internal_value();
                sy.see((i128)a);
                if(n != (sine ? -(i128)r.internal_value() : (i128)r.internal_value()))
                    fail(nm + " symmetry", "raw " + str128((i128)a) + ": raw " + str128((i128)r.internal_value()) + " and raw " + str128(n));
            }
        };
        for(T a : v)
            one(a);
        for(int k = -80; k <= 80; ++k)
            for(int d = -2; d <= 2; ++d)
                if(const i128 p = (i128)(3.14159265358979323846264338327950288L * k / 4 / u) + d; fits<T>(p))
                    one((T)p);
        for(u64 i = 0, n = reps(400000, 10000); i < n; ++i)
        {
            one(random_raw<T>(g, v));
            one((T)(((i128)(g.next() >> 1) % ((i128)14 << M::frac)) - ((i128)7 << M::frac)));
        }
    }
}

template <size_t N>
void lut(rng_t& g)
{
    using F = eirin::fixed64;
    using M = fmt<F>;
    meter_t m("table sine " + std::to_string(N));
    auto v = interesting_of<F>();
    // the error of linear interpolation over N - 1 intervals, h^2 / 8
    const long double h = 3.14159265358979323846L / (N - 1), interp = h * h / 8 * 1.01L;
    auto one = [&](int64_t a)
    {
        at("lut_calc_sin", M::name(), a);
        m.see(a);
        const long double u = std::ldexp(1.0L, -32), x = (long double)a * u;
        const long double want = (long double)sinq(scalbnq((quad)a, -32)), got = (long double)eirin::util::lut::lut_calc_sin<N>(M::mk(a)).internal_value() * u;
        const long double tol = interp + (8 + N / 64) * u + 2 * u * (std::fabs(x) / 6.28L + 1);
        const long double err = std::fabs(got - want);
        m.ratio((double)(err / tol), a);
        if(!(err <= tol))
            fail("table sine " + std::to_string(N), strf("raw %lld: sin(%.12Lg) = %.12Lg but got %.12Lg", (long long)a, x, want, got));
        if(a == std::numeric_limits<int64_t>::min()) // it has no opposite
            return;
        const int64_t p = eirin::util::lut::lut_calc_sin<N>(M::mk(a)).internal_value(), n = eirin::util::lut::lut_calc_sin<N>(M::mk(-a)).internal_value();
        if(p != -n)
            fail("table sine odd " + std::to_string(N), strf("raw %lld: raw %lld, and raw %lld for the opposite", (long long)a, (long long)p, (long long)n));
    };
    for(auto a : v)
        one(a);
    for(int k = -2000; k <= 2000; ++k)
    {
        long double p = 3.14159265358979323846264338327950288L * k / 4 * std::ldexp(1.0L, 32);
        for(int d = -2; d <= 2; ++d)
            one((int64_t)p + d);
    }
    for(u64 i = 0, n = reps(2000000, 40000); i < n; ++i)
    {
        one(random_raw<int64_t>(g, v));
        one((int64_t)(g.below((u64)20 << 32) - ((u64)10 << 32)));
    }
}

static eirin::fixed64 half_of(eirin::fixed64 x) { return x / 2; }

// the tables themselves: N angles a step of pi / N apart, and N samples of a function over [0, pi]
template <size_t N>
void tables(rng_t&)
{
    meter_t m("tables " + std::to_string(N));
    const long double pi = 3.14159265358979323846264338327950288L;
    const auto angles = eirin::util::lut::angels_lut<N>();
    const auto halves = eirin::util::lut::func_ptr_lut<N>(half_of);
    for(size_t i = 0; i < N; ++i)
    {
        at("tables", "s64.32", (i64)i, (i64)N);
        m.see((i128)i, (i128)N);
        // the stored step is truncated once, and so is its product
        const long double a = (long double)angles[i].internal_value(), wa = std::ldexp(pi, 32) / N * i;
        if(!(a <= wa + 1 && a >= wa - (long double)i - 2))
            fail("angle table " + std::to_string(N), strf("entry %zu is %.0Lf raw, expected %.3Lf", i, a, wa));
        const long double b = (long double)halves[i].internal_value(), wb = std::ldexp(pi, 32) / (N - 1) * i / 2;
        if(!(b <= wb + 1 && b >= wb - (long double)i / 2 - 2))
            fail("function table " + std::to_string(N), strf("entry %zu is %.0Lf raw, expected %.3Lf", i, b, wb));
    }
}

void workload()
{
    std::vector<job_t> jobs;
    jobs.push_back({"tables", [](rng_t& g)
                    {
                        tables<2>(g);
                        tables<3>(g);
                        tables<64>(g);
                        tables<100>(g);
                        tables<361>(g);
                        tables<512>(g);
                        tables<1024>(g);
                    }});
    jobs.push_back({"rotation 32", [](rng_t& g)
                    {
                        rotation<S32<16>, 41, false>(g);
                        rotation<S32<16>, 12, true>(g);
                        rotation<S32<16>, 12, false>(g);
                        rotation<S32<24>, 41, true>(g);
                        rotation<S32<24>, 41, false>(g);
                        rotation<S32<20>, 17, true>(g);
                    }});
    jobs.push_back({"rotation 64", [](rng_t& g)
                    {
                        rotation<S64<32>, 41, false>(g);
                        rotation<S64<32>, 1, false>(g);
                        rotation<S64<32>, 2, true>(g);
                        rotation<S64<32>, 20, true>(g);
                        rotation<S64<32>, 20, false>(g);
                    }});
    jobs.push_back({"rotation fine", [](rng_t& g)
                    {
                        rotation<S64<48>, 41, true>(g);
                        rotation<S64<48>, 41, false>(g);
                        rotation<S64<24>, 30, true>(g);
                        rotation<S64<24>, 30, false>(g);
                    }});
    jobs.push_back({"cordic s32.16", [](rng_t& g) { watch<S32<16>>().run(g); }});
    jobs.push_back({"cordic s64.32", [](rng_t& g) { watch<S64<32>>().run(g); }});
    jobs.push_back({"table 512", [](rng_t& g) { lut<512>(g); }});
    jobs.push_back({"table 1024", [](rng_t& g) { lut<1024>(g); }});
    jobs.push_back({"table 64", [](rng_t& g) { lut<64>(g); }});
    jobs.push_back({"table 361", [](rng_t& g) { lut<361>(g); }});
    run_jobs(std::move(jobs));
    // one whole turn, every representable angle
    parallel("cordic s32.16 turn", 420000, 1 << 13, [&](rng_t&, u64 b, u64 e)
             {
                 watch<S32<16>> d;
                 for(u64 i = b; i < e; i += step(1, 1))
                     d.one((int32_t)i);
             });
    u64 stride = step(13, 199);
    parallel("cordic s32.16 sweep", (u64(1) << 32) / stride, 1 << 15, [&](rng_t&, u64 b, u64 e)
             {
                 watch<S32<16>> d;
                 for(u64 i = b; i < e; ++i)
                     d.one((int32_t)(uint32_t)(i * stride + opt.seed % stride));
             });
}
