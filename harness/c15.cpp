#define VF_QUICK 3
// C15: the value of a decimal numeral, by every way of reading one.
#include "text.hpp"
#include <sstream>
using namespace vf;

template <typename F>
struct reader
{
    using M = fmt<F>;
    using T = typename M::store;
    std::string nm = M::name();
    meter_t m{"numerals " + nm}, ma{"accepted " + nm}, mr{"rejected " + nm};
    static constexpr bool is32 = std::is_same_v<F, eirin::fixed32>;
    static constexpr bool is64 = std::is_same_v<F, eirin::fixed64>;

    // how: the entry point; accepted: what it said; got: the number
    void judge(const char* how, const std::string& s, const numeral& n, bool accepted, i128 got)
    {
        const int rep = representable<T>(n, M::frac);
        if(!accepted)
        {
            mr.see((i128)n.ip);
            if(rep > 0)
                fail(std::string(how) + " rejects " + nm, "\"" + escape(s) + "\" is representable");
            return;
        }
        ma.see(got);
        if(rep < 0)
        {
            fail(std::string(how) + " accepts " + nm, "\"" + escape(s) + "\" is not representable, read as raw " + str128(got));
            return;
        }
        const u128 mag = magnitude(n, M::frac), gm = got < 0 ? (u128)0 - (u128)got : (u128)got;
        if(!right_value(n, M::frac, got))
            fail(std::string(how) + " value " + nm, "\"" + escape(s) + "\" read as raw " + str128(got) + ", truncated value is raw " + (n.neg ? "-" : "") + str128((i128)mag) + strf(" (tolerance %d)", (int)shortfall(n, M::frac)));
        else if(shortfall(n, M::frac))
            ma.ratio((double)(u64)(mag - gm) / (double)(u64)shortfall(n, M::frac), (i64)got);
    }
    void one(const std::string& s)
    {
        const numeral n = scan(s);
        if(!n.ok)
            return;
        m.see((i128)n.ip, (i128)n.fp.size() * (n.neg ? -1 : 1));
        const F sentinel = M::mk(0x2B);
        {
            at_text("fixed_from_cstring", M::name(), s.data(), s.size());
            F x = sentinel;
            bool ok = eirin::fixed_from_cstring(s.data(), s.size(), x);
            judge("fixed_from_cstring", s, n, ok, (i128)x.internal_value());
            if(!ok && !(x == sentinel))
                fail("fixed_from_cstring output " + nm, "\"" + escape(s) + "\" rejected, but the output changed");
        }
        {
            at_text("operator>>", M::name(), s.data(), s.size());
            std::istringstream is(s);
            F x = sentinel;
            is >> x;
            judge("operator>>", s, n, !is.fail(), (i128)x.internal_value());
            if(is.fail() && !(x == sentinel))
                fail("operator>> output " + nm, "\"" + escape(s) + "\" failed, but the output changed");
        }
        {
            std::wistringstream is(std::wstring(s.begin(), s.end()));
            F x = sentinel;
            is >> x;
            judge("wide operator>>", s, n, !is.fail(), (i128)x.internal_value());
        }
        if constexpr(is32)
        {
            {
                at_text("f32_from_cstring", M::name(), s.data(), s.size());
                F x = sentinel;
                bool ok = eirin::f32_from_cstring(s.data(), s.size(), x);
                judge("f32_from_cstring", s, n, ok, (i128)x.internal_value());
                if(!ok && !(x == sentinel))
                    fail("f32_from_cstring output " + nm, "\"" + escape(s) + "\" rejected, but the output changed");
            }
            {
                at_text("io::parse view", M::name(), s.data(), s.size());
                F x = sentinel;
                const char* p = eirin::io::parse(std::string_view(s), x);
                judge("io::parse view", s, n, p != s.data(), (i128)x.internal_value());
                if(p != s.data() && p != s.data() + s.size())
                    fail("io::parse view position", "\"" + escape(s) + "\": stopped in the middle");
            }
            {
                std::string t = s + ";tail";
                at_text("io::parse", M::name(), t.data(), t.size());
                F x = sentinel;
                const char* p = eirin::io::parse(t.data(), ";", x);
                judge("io::parse", s, n, p != t.data(), (i128)x.internal_value());
                if(p != t.data() && p != t.data() + s.size())
                    fail("io::parse position", "\"" + escape(t) + "\": stopped elsewhere");
            }
            literal(s, n, eirin::operator""_f32(s.data(), s.size()), "_f32 literal");
        }
        if constexpr(is64)
            literal(s, n, eirin::operator""_f64(s.data(), s.size()), "_f64 literal");
    }
    // a literal has no way to report: zero for what it cannot represent
    void literal(const std::string& s, const numeral& n, F x, const char* how)
    {
        if(representable<T>(n, M::frac) > 0)
            judge(how, s, n, true, (i128)x.internal_value());
    }
    // the same numeral as a number in the source
    void source(const std::string& with_separators, F x)
    {
        std::string s;
        for(char c : with_separators)
            if(c != '\'')
                s += c;
        const numeral n = scan(s);
        if(!n.ok)
            return;
        m.see((i128)n.ip, (i128)n.fp.size() + 100);
        at_text("source literal", M::name(), s.data(), s.size());
        literal(s, n, x, "source literal");
        if(representable<T>(n, M::frac) < 0 && x.internal_value() != 0)
            fail("source literal accepts " + nm, "\"" + escape(s) + "\" is not representable, read as raw " + str128((i128)x.internal_value()));
    }
    // the operators that are given a number which the compiler has read already
    void cooked(rng_t& g)
    {
        if constexpr(is32)
            for(u64 i = 0, n = reps(2000000, 60000); i < n; ++i)
            {
                const u64 w = g.next();
                const unsigned ip = (unsigned)(w >> 40) % 32768 >> (w % 16);
                std::string s = std::to_string(ip);
                literal(s, scan(s), eirin::operator""_f32((unsigned long long)ip), "_f32 literal of an integer");
                s += '.';
                for(int k = 1 + (int)((w >> 8) % 9); k > 0; --k) // so few digits that the long double lies on the same side of every step
                    s += (char)('0' + g.next() % 10);
                literal(s, scan(s), eirin::operator""_f32(std::strtold(s.c_str(), nullptr)), "_f32 literal of a long double");
            }
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        cooked(g);
        for(T a : v)
            one(exact_decimal((i128)a, M::frac));
        // every numeral with few digits
        if constexpr(sizeof(T) <= 4)
            for(int i = 0; i < 1100; ++i)
                for(int d = 0; d < 100; d += opt.tiny ? 13 : 1)
                {
                    one(strf("%d.%02d", i, d));
                    if(M::is_signed)
                        one(strf("-%d.%d", i, d));
                }
        for(int i = 0; i < 10000; i += opt.tiny ? 13 : 1)
            one(strf("%d.%04d", i % 7, i));
        for(u64 i = 0, n = reps(4000000, 80000); i < n; ++i)
            one(random_numeral<T>(g, M::frac, v));
    }
};

// the literals the compiler reads
static void literals()
{
    using namespace eirin;
    reader<fixed32> r32;
    source_literals<5, false, false>([&](const std::string& s, fixed32 x) { r32.source(s, x); }, std::make_index_sequence<160>());
    reader<fixed64> r64;
    source_literals<10, true, false>([&](const std::string& s, fixed64 x) { r64.source(s, x); }, std::make_index_sequence<160>());
    meter_t m("compile time literals");
    auto eq = [&](const char* what, i64 got, i64 want)
    {
        m.see(got, want);
        if(got != want)
            fail(std::string("literal ") + what, strf("raw %lld, expected raw %lld", (long long)got, (long long)want));
    };
    eq("114_f32", (114_f32).internal_value(), 114 << 16);
    eq("0_f32", (0_f32).internal_value(), 0);
    eq("5.25_f32", (5.25_f32).internal_value(), 0x54000);
    eq("5.14_f32", (5.14_f32).internal_value(), 336855);
    eq("\"49.5\"_f32", ("49.5"_f32).internal_value(), 49 * 65536 + 32768);
    eq("-\"49.5\"_f32", (-"49.5"_f32).internal_value(), -(49 * 65536 + 32768));
    eq("\"-49.5\"_f32", ("-49.5"_f32).internal_value(), -(49 * 65536 + 32768));
    eq("32767.5_f32", (32767.5_f32).internal_value(), 0x7FFF8000);
    eq("\"-32768\"_f32", ("-32768"_f32).internal_value(), -2147483648ll);
    eq("1'000.5_f32", (1'000.5_f32).internal_value(), 65568768);
    eq("1'000.5_f64", (1'000.5_f64).internal_value(), 4297114779648ll);
    eq("114_f64", (114_f64).internal_value(), 114ll << 32);
    eq("5.25_f64", (5.25_f64).internal_value(), 0x540000000ll);
    eq("0.125_f64", (0.125_f64).internal_value(), 0x20000000ll);
    eq("\"-2147483648\"_f64", ("-2147483648"_f64).internal_value(), std::numeric_limits<i64>::min());
    eq("\"2147483647.5\"_f64", ("2147483647.5"_f64).internal_value(), 0x7FFFFFFF80000000ll);
    eq("3.14159265_f64", (3.14159265_f64).internal_value(), 13493037689ll);
    static_assert(("0.5"_f32).internal_value() == 32768);
    static_assert((0.5_f64).internal_value() == 0x80000000ll);
}

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        for(int k = 0; k < 2; ++k)
            jobs.push_back({std::string("numerals ") + fmt<F>::name() + (k ? " b" : " a"), [](rng_t& g)
                            {
                                reader<F> d;
                                d.run(g);
                            }});
    };
    flist<S32<1>, S32<30>, S64<1>, S64<62>, S16<14>, S16<1>, S8<6>, S8<1>, U8<4>, U8<7>, U16<15>, U32<31>, U64<63>, S32W<16>, S16<8, true>, U32<16, true>, S64<56>, S32<16>, S64<32>, S32<8>, S32<24>, S64<16>, S64<48>, S16<8>, S8<4>, U32<16>, U64<32>, U16<8>, S32<16, true>, S64<32, true>>::each(go);
    run_jobs(std::move(jobs));
    section("literals", [](rng_t&) { literals(); });
}
