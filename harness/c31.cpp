#define VF_QUICK 10
#ifndef PART
#    define PART 0
#endif
// C31: the helpers with which constants and error figures are made.
#include "formats.hpp"
#include <eirin/detail/util.hpp>
#include <eirin/detail/perf.hpp>
#include <quadmath.h>
using namespace vf;
typedef __float128 quad;

template <typename I>
void eval(rng_t& g, const char* nm)
{
    meter_t m(std::string("eval_value ") + nm);
    auto one = [&](double v, int f)
    {
        if(!(v >= 0) || !(std::ldexp(v, f) < (double)std::numeric_limits<I>::max() / 1.01) || f >= (int)sizeof(I) * 8 - 1)
            return;
        at("eval_value", nm, (i64)f, (i64)v);
        const i128 got = (i128)eirin::util::eval_value<I>(v, f), want = (i128)floorq(scalbnq((quad)v, f));
        m.see(got, f);
        if(got != want)
            fail(std::string("eval_value ") + nm, strf("%.17g with %d bits: ", v, f) + str128(got) + ", expected " + str128(want));
    };
    for(double c : {1.4426950408889634, 0.4342944819032518, 0.3183098861837907, 0.5641895835477563, 0.6931471805599453, 2.302585092994046, 1.4142135623730951, 3.141592653589793, 1.618033988749895})
        for(int f = 1; f < (int)sizeof(I) * 8; ++f)
            one(c, f);
    for(u64 i = 0, n = reps(4000000, 100000); i < n; ++i)
    {
        int f = 1 + (int)g.below(sizeof(I) * 8 - 2);
        double v = std::ldexp((double)(g.next() >> 11), -53 + (int)g.below(14));
        one(v, f);
        one(std::floor(v), f);
        one(std::ldexp((double)(g.next() >> (12 + g.below(52))), -(int)g.below(64)), f);
    }
}

template <typename T, int f, int N>
void pi_terms(meter_t& m)
{
    at("bbp", "pi", f, N);
    const i128 v = (i128)eirin::util::pi_calc::bbp_calc_pi<T, f, N>();
    m.see(v, f);
    // each term loses less than 4 units, the rest of the series is below 16^-N
    quad want = scalbnq(4 * atanq((quad)1), f), tol = 4 * N + 1 + scalbnq((quad)1, f - 4 * N);
    if(fabsq((quad)v - want) > tol)
        fail("bbp", strf("%d bits, %d terms: ", f, N) + str128(v));
}

template <typename F>
void measure(rng_t& g)
{
    using M = fmt<F>;
    meter_t m(std::string("measure_esp ") + M::name());
    for(u64 r = 0, n = reps(20000, 400); r < n; ++r)
    {
        i128 s = (i128)g.below(1000) - 500, len = g.below(300), st = 1 + g.below(5);
        u64 salt = g.next();
        const i128 one = (i128)1 << M::frac;
        auto ref = [](F x) { return x; };
        auto fn = [&](F x)
        {
            // an error between 0 and about 3
            rng_t h(mix(salt, (u64)x.internal_value()));
            return x + M::mk((i64)h.below(6 * (u64)one) - 3 * (i64)one);
        };
        F start = M::mk(s * (one / 8)), end = M::mk((s + len) * (one / 8)), step = M::mk(st * (one / 8));
        at("measure_esp", M::name(), (i64)s, (i64)len, (i64)st);
        auto got = eirin::perf::measure_esp<F>(start, end, step, fn, ref, [](int64_t v) { return F(v); });
        i128 mx = -1, mn = hi_of<i64>(), ix = 0, in = 0;
        for(i128 x = (i128)start.internal_value(); x <= (i128)end.internal_value(); x += (i128)step.internal_value())
        {
            i128 e = (i128)fn(M::mk(x)).internal_value() - x;
            e = e < 0 ? -e : e;
            if(e > mx)
                mx = e, ix = x;
            if(e < mn)
                mn = e, in = x;
        }
        m.see(mx, mn);
        if((i128)got.max_esp.internal_value() != mx || (i128)got.min_esp.internal_value() != mn)
            fail(std::string("measure_esp errors ") + M::name(), "max " + str128((i128)got.max_esp.internal_value()) + " expected " + str128(mx) + ", min " + str128((i128)got.min_esp.internal_value()) + " expected " + str128(mn));
        else if((mx && (i128)got.max_esp_input.internal_value() != ix) || (i128)got.min_esp_input.internal_value() != in)
            fail(std::string("measure_esp inputs ") + M::name(), "wrong input");
    }
}

// the table of constants, and the definitions that are generated from it
struct wanted_t
{
    const char* name;
    quad value;
    i64 raw;
};
static std::vector<wanted_t> wanted()
{
    using D = eirin::fixed_num<int64_t, __int128, 61, false>;
    const quad pi = 4 * atanq((quad)1), e = expq((quad)1);
    auto raw = [](D d) { return (i64)d.internal_value(); };
    return {
        {"log2e", log2q(e), raw(eirin::numbers::log2e_v<D>())},
        {"log10e", log10q(e), raw(eirin::numbers::log10e_v<D>())},
        {"inv_pi", 1 / pi, raw(eirin::numbers::inv_pi_v<D>())},
        {"inv_sqrtpi", 1 / sqrtq(pi), raw(eirin::numbers::inv_sqrtpi_v<D>())},
        {"ln2", logq((quad)2), raw(eirin::numbers::ln2_v<D>())},
        {"ln10", logq((quad)10), raw(eirin::numbers::ln10_v<D>())},
        {"sqrt2", sqrtq((quad)2), raw(eirin::numbers::sqrt2_v<D>())},
        {"sqrt3", sqrtq((quad)3), raw(eirin::numbers::sqrt3_v<D>())},
        {"inv_sqrt3", 1 / sqrtq((quad)3), raw(eirin::numbers::inv_sqrt3_v<D>())},
        {"egamma", strtoflt128("0.577215664901532860606512090082402431042", nullptr), raw(eirin::numbers::egamma_v<D>())},
        {"phi", (1 + sqrtq((quad)5)) / 2, raw(eirin::numbers::phi_v<D>())}};
}
static std::string printed(int fraction)
{
    fflush(stdout);
    FILE* t = tmpfile();
    const int keep = dup(1);
    if(!t || keep < 0)
        return "-";
    dup2(fileno(t), 1);
    if(fraction == 61)
        eirin::util::print_constants<>();
    else
        eirin::util::print_constants<int64_t>(fraction);
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    std::string s;
    rewind(t);
    for(int c; (c = fgetc(t)) != EOF;)
        s.push_back((char)c);
    fclose(t);
    return s;
}
static void generator()
{
    meter_t mt("table of constants"), mp("printed constants");
    const auto want = wanted();
    at("table of constants", "cst_lst", (i64)want.size());
    std::map<std::string, quad> have;
    for(size_t i = 0; i < std::min(std::size(eirin::util::cst_lst), std::size(eirin::util::csl_nme_lst)); ++i)
    {
        have[eirin::util::csl_nme_lst[i]] = (quad)eirin::util::cst_lst[i];
        mt.see((i128)((long double)eirin::util::cst_lst[i] * 0x1p61L), (i128)i);
    }
    if(std::size(eirin::util::cst_lst) != std::size(eirin::util::csl_nme_lst) || eirin::util::cst_lst_size != std::size(eirin::util::cst_lst))
        fail("table of constants", "as many names as values are expected");
    for(auto& w : want)
        if(!have.count(w.name))
            fail("table of constants", std::string(w.name) + " is missing");
        else if(fabsq(have[w.name] - w.value) > scalbnq(w.value, -63))
            fail("table of constants", std::string(w.name) + strf(" is %.20Lg", (long double)have[w.name]));
    for(int f : {61, 60, 52, 40, 32, 31, 24, 16, 8, 4})
    {
        at("print_constants", "printed", f);
        const std::string text = printed(f);
        if(text == "-")
            continue;
        for(auto& w : want)
        {
            // the name in the comment, the name of the function, the value
            const std::string head = std::string("// ") + w.name + "\n", fn = std::string(" ") + w.name + "_v()";
            size_t a = text.find(head), b = a == std::string::npos ? a : text.find(fn, a), c = b == std::string::npos ? b : text.find("(0x", b), d = c == std::string::npos ? c : text.find("// ", c);
            if(c == std::string::npos || text.find("// ", a + 3) < c || d < c)
            {
                fail("printed constants", strf("%d bits: no definition of ", f) + w.name);
                continue;
            }
            const i64 v = (i64)strtoull(text.c_str() + c + 1, nullptr, 16), expected = (i64)floorq(scalbnq((quad)(double)w.value, f));
            mp.see(v, f);
            if(v != expected)
                fail("printed constants", strf("%d bits: %s is 0x%llx, expected 0x%llx", f, w.name, (unsigned long long)v, (unsigned long long)expected));
            // the library holds what the generator prints, to 51 bits
            if(f == 61 && std::abs(v - w.raw) > 1024)
                fail("printed constants", strf("%s is 0x%llx, the library has 0x%llx", w.name, (unsigned long long)v, (unsigned long long)w.raw));
        }
    }
}

void workload()
{
    generator();
    std::vector<job_t> jobs;
    jobs.push_back({"eval int64", [](rng_t& g) { eval<int64_t>(g, "int64"); }});
    jobs.push_back({"eval int32", [](rng_t& g) { eval<int32_t>(g, "int32"); }});
    jobs.push_back({"measure s32.16", [](rng_t& g) { measure<S32<16>>(g); }});
    jobs.push_back({"measure s64.16", [](rng_t& g) { measure<S64<16>>(g); }});
    jobs.push_back({"measure s32.8", [](rng_t& g) { measure<S32<8>>(g); }});
    jobs.push_back({"measure s64.32r", [](rng_t& g) { measure<S64<32, true>>(g); }});
    jobs.push_back({"measure s64.32", [](rng_t& g) { measure<S64<32>>(g); }});
    jobs.push_back({"pi", [](rng_t&)
                    {
                        meter_t m("bbp");
                        pi_terms<int64_t, 61, 20>(m);
                        pi_terms<int64_t, 61, 10>(m);
                        pi_terms<int64_t, 61, 5>(m);
                        pi_terms<int64_t, 61, 2>(m);
                        pi_terms<int64_t, 61, 1>(m);
                        pi_terms<int64_t, 48, 16>(m);
                        pi_terms<int64_t, 32, 12>(m);
                        pi_terms<int64_t, 16, 8>(m);
                        pi_terms<int32_t, 29, 10>(m);
                        pi_terms<int32_t, 16, 6>(m);
                        pi_terms<int16_t, 13, 4>(m);
                        pi_terms<int16_t, 8, 4>(m);
                    }});
    run_jobs(std::move(jobs));
}
