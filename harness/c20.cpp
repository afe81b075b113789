#ifndef PART
#    define PART 0
#endif
// C20: mathematical constants and numeric limits.
#include "formats.hpp"
#include <quadmath.h>
using namespace vf;
typedef __float128 quad;

static quad pi_q() { return 4 * atanq((quad)1); }
struct constant_t
{
    const char* name;
    quad value;
};
static std::vector<constant_t> table()
{
    return {
        {"e", expq((quad)1)}, {"pi", pi_q()}, {"log2e", 1 / logq((quad)2)}, {"log10e", 1 / logq((quad)10)}, {"inv_pi", 1 / pi_q()},
        {"inv_sqrtpi", 1 / sqrtq(pi_q())}, {"ln2", logq((quad)2)}, {"ln10", logq((quad)10)}, {"sqrt2", sqrtq((quad)2)},
        {"sqrt3", sqrtq((quad)3)}, {"inv_sqrt3", 1 / sqrtq((quad)3)},
        {"egamma", strtoflt128("0.577215664901532860606512090082402431042", nullptr)},
        {"phi", (1 + sqrtq((quad)5)) / 2}};
}

template <typename F>
std::vector<F> values()
{
    using namespace eirin::numbers;
    return {e_v<F>(), pi_v<F>(), log2e_v<F>(), log10e_v<F>(), inv_pi_v<F>(), inv_sqrtpi_v<F>(), ln2_v<F>(), ln10_v<F>(), sqrt2_v<F>(), sqrt3_v<F>(), inv_sqrt3_v<F>(), egamma_v<F>(), phi_v<F>()};
}

template <typename F>
void judge(meter_t& m, const char* name, quad c, F v, const char* what)
{
    using M = fmt<F>;
    at(name, M::name(), (i64)v.internal_value());
    m.see((i128)v.internal_value(), (i128)M::frac);
    const quad exact = scalbnq(c, M::frac), got = (quad)(i128)v.internal_value();
    // the constants are held with 61 fraction bits, of which the last 9 may be unknown (they come from doubles)
    const quad slack = scalbnq((quad)502, (int)M::frac - 61);
    const quad lo = M::rounding ? exact - (quad)0.5 - slack : exact - 1 - slack;
    const quad hi = M::rounding ? exact + (quad)0.5 + slack : exact + slack;
    m.ratio((double)(fabsq(got - exact) / (1 + slack)), (i64)v.internal_value());
    if(!(got >= lo && got <= hi))
        fail(std::string(what) + " " + name + " " + M::name(), strf("raw %lld, expected %.6f", (long long)v.internal_value(), (double)exact));
}

template <typename F>
void constants()
{
    using M = fmt<F>;
    meter_t m(std::string("constants ") + M::name());
    auto t = table();
    auto v = values<F>();
    for(size_t i = 0; i < t.size(); ++i)
        judge(m, t[i].name, t[i].value, v[i], "constant");
    judge(m, "e", expq((quad)1), F::e(), "member constant");
    judge(m, "pi", pi_q(), F::pi(), "member constant");
    judge(m, "pi/2", pi_q() / 2, F::pi_2(), "member constant");
    judge(m, "pi/4", pi_q() / 4, F::pi_4(), "member constant");
    if constexpr(M::ibits >= 3)
        judge(m, "2 pi", pi_q() * 2, F::double_pi(), "member constant");
}

template <typename F>
void limits()
{
    using M = fmt<F>;
    using T = typename M::store;
    using L = std::numeric_limits<F>;
    meter_t m(std::string("limits ") + M::name());
    auto is = [&](const char* what, F got, i128 raw)
    {
        at(what, M::name(), (i64)got.internal_value());
        m.see((i128)got.internal_value(), raw);
        if((i128)got.internal_value() != raw)
            fail(std::string("limits ") + what + " " + M::name(), "raw " + str128((i128)got.internal_value()) + ", expected raw " + str128(raw));
    };
    auto yes = [&](const char* what, bool b)
    {
        m.see(1);
        if(!b)
            fail(std::string("limits ") + what + " " + M::name(), "wrong trait");
    };
    is("max", (L::max)(), hi_of<T>());
    is("min", (L::min)(), lo_of<T>());
    is("lowest", L::lowest(), lo_of<T>());
    // the library's tolerance is 5 * 2^-16
    i128 eps = M::frac >= 16 ? (i128)5 << (M::frac - 16) : M::rounding ? (5 + ((i128)1 << (15 - M::frac))) >> (16 - M::frac) : (i128)5 >> (16 - M::frac);
    if(eps <= hi_of<T>())
    {
        is("epsilon", L::epsilon(), eps);
        is("type epsilon", F::epsilon(), eps);
        is("comparison epsilon", F::nearly_compare_epsilon(), eps);
    }
    is("max_value", eirin::max_value<F>(), hi_of<T>());
    is("min_value", eirin::min_value<F>(), lo_of<T>());
    yes("is_specialized", L::is_specialized);
    yes("is_signed", L::is_signed == std::is_signed_v<T>);
    yes("is_integer", !L::is_integer);
    yes("is_exact", L::is_exact);
    yes("is_bounded", L::is_bounded);
    yes("no infinity", !L::has_infinity && !L::has_quiet_NaN && !L::has_signaling_NaN);
    yes("precision", F::precision == M::frac);
    if constexpr(M::ibits >= 7)
        is("digits", L::digits, (i128)(M::bits - M::is_signed) << M::frac);
    if constexpr(M::ibits >= 5) // decimal digits that any number of the type keeps: floor(digits * log10(2))
        is("digits10", L::digits10, (i128)std::numeric_limits<T>::digits10 << M::frac);
    if constexpr(M::ibits >= 2)
        is("radix", L::radix, (i128)2 << M::frac);
    yes("no floating point traits", !L::is_iec559 && !L::is_modulo && !L::tinyness_before && !L::has_denorm_loss && L::has_denorm == std::denorm_absent);
    // nothing lies outside the range, and the next number is one unit further
    auto vs = interesting_of<F>();
    for(T a : vs)
    {
        F x = M::mk(a);
        at("range", M::name(), (i64)a);
        m.see((i128)a);
        if(!(x >= L::lowest() && x <= (L::max)()))
            fail(std::string("limits range ") + M::name(), "raw " + str128((i128)a) + " outside of the range");
        if(a != std::numeric_limits<T>::max())
        {
            F y = x + M::mk(1);
            if(!(y > x) || !(y <= (L::max)()))
                fail(std::string("limits next number ") + M::name(), "raw " + str128((i128)a));
        }
    }
}

void workload()
{
    std::vector<job_t> jobs;
    auto con = [&]<typename F>() { jobs.push_back({std::string("constants ") + fmt<F>::name(), [](rng_t&) { constants<F>(); }}); };
    auto lim = [&]<typename F>() { jobs.push_back({std::string("limits ") + fmt<F>::name(), [](rng_t&) { limits<F>(); }}); };
    flist<S16<4>, S16<8>, S16<13>, U16<8>, U16<13>, S8<4>, S8<5>, U8<4>, S32<1>, S32<8>, S32<12>, S32<16>, S32<20>, S32<24>, S32<28>, S32<29>, U32<16>, U32<24>, U32<30>, S64<1>, S64<8>, S64<16>, S64<24>, S64<31>, S64<32>, S64<33>, S64<40>, S64<48>, S64<52>, S64<56>, S64<61>, U64<32>, U64<48>, U64<61>, S32<16, true>, S64<32, true>, U32<16, true>, S32W<16>>::each(con);
    all8::each(lim);
    all8r::each(lim);
    all16::each(lim);
    all32a::each(lim);
    all32b::each(lim);
    all64a::each(lim);
    all64b::each(lim);
    run_jobs(std::move(jobs));

    section("named constants", [&](rng_t&)
            {
                using namespace eirin::numbers;
                meter_t m("named constants");
                auto t = table();
                const eirin::fixed32 a[] = {eirin::numbers::e, pi, log2e, log10e, inv_pi, inv_sqrtpi, ln2, ln10, sqrt2, sqrt3, inv_sqrt3, egamma, phi};
                const eirin::fixed64 b[] = {e_f64, pi_f64, log2e_f64, log10e_f64, inv_pi_f64, inv_sqrtpi_f64, ln2_f64, ln10_f64, sqrt2_f64, sqrt3_f64, inv_sqrt3_f64, egamma_f64, phi_f64};
                for(size_t i = 0; i < t.size(); ++i)
                {
                    judge(m, t[i].name, t[i].value, a[i], "named constant");
                    judge(m, t[i].name, t[i].value, b[i], "named constant");
                }
                struct { const char* n; i128 got, want; } ends[] = {
                    {"f32_max", eirin::f32_max.internal_value(), hi_of<int32_t>()}, {"f32_min", eirin::f32_min.internal_value(), lo_of<int32_t>()},
                    {"f64_max", eirin::f64_max.internal_value(), hi_of<int64_t>()}, {"f64_min", eirin::f64_min.internal_value(), lo_of<int64_t>()}};
                for(auto& x : ends)
                {
                    m.see(x.got, x.want);
                    if(x.got != x.want)
                        fail(std::string("named limit ") + x.n, "raw " + str128(x.got));
                }
            });
}
