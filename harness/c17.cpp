#define VF_QUICK 15
// C17: writing a number to a stream gives its exact digits.
#include "text.hpp"
#include <sstream>
#include <iomanip>
using namespace vf;

// exact expansion in a base 2, 8, 10 or 16
static std::string expand(i128 raw, unsigned f, unsigned base, bool upper)
{
    const char* digits = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    bool neg = raw < 0;
    u128 u = neg ? (u128)0 - (u128)raw : (u128)raw;
    u128 ip = u >> f, fr = u & (((u128)1 << f) - 1);
    std::string s;
    do
    {
        s += digits[(unsigned)(ip % base)];
        ip /= base;
    } while(ip);
    if(neg)
        s += '-';
    std::reverse(s.begin(), s.end());
    if(fr)
        s += '.';
    while(fr)
    {
        fr *= base;
        s += digits[(unsigned)(fr >> f)];
        fr &= ((u128)1 << f) - 1;
    }
    return s;
}

template <typename F>
struct writer
{
    using M = fmt<F>;
    using T = typename M::store;
    std::string nm = M::name();
    meter_t m{"decimal " + nm}, mb{"other bases " + nm};
    std::ostringstream os;
    u64 fieldno = 0;

    void bad(const char* what, i128 a, const std::string& got, const std::string& want)
    {
        fail(std::string(what) + " " + nm, "raw " + str128(a) + " written as \"" + escape(got) + "\", expected \"" + want + "\"");
    }
    void one(T a, bool bases)
    {
        const i128 A = (i128)a;
        const F x = M::mk(a);
        at("operator<<", M::name(), (i64)a);
        m.see(A);
        os.str("");
        std::ostream& r = os << x;
        const std::string want = expand(A, M::frac, 10, false);
        if(os.str() != want || &r != &os || !os.good())
            bad("decimal", A, os.str(), want);
        // the digits stand for the number: they are not longer than the fraction has bits
        if(!bases)
            return;
        auto check = [&](auto manip, unsigned base, bool upper)
        {
            std::ostringstream o;
            o << manip;
            if(upper)
                o << std::uppercase;
            auto before = o.flags();
            at("operator<< base", M::name(), (i64)a, base);
            mb.see(A, base);
            o << '<' << x << '>' << x;
            const std::string e = expand(A, M::frac, base, upper), w = "<" + e + ">" + e;
            if(o.str() != w)
                bad("base", A, o.str(), w);
            if(o.flags() != before)
                bad("flags", A, "other format flags", "the same flags");
        };
        check(std::hex, 16, false);
        check(std::hex, 16, true);
        check(std::oct, 8, false);
        check(std::dec, 10, true);
        check(std::resetiosflags(std::ios_base::basefield), 2, false);
        // a field width applies to the number as a whole, and only once; other numeric flags do not change it
        {
            std::ostringstream o;
            const unsigned flags = (unsigned)mix64((u64)a * 2654435761u + ++fieldno);
            const unsigned base = (flags & 0x10000) ? 10 : (flags & 0x20000) ? 16 : (flags & 0x40000) ? 8 : 2;
            const bool upper = flags & 0x80000;
            const std::string e = expand(A, M::frac, base, upper);
            const size_t w = e.size() + (flags >> 8) % 7 - ((flags >> 12) % 3 < e.size() ? (flags >> 12) % 3 : 0);
            const char fill = "* 0#"[(flags >> 4) & 3];
            const unsigned adj = flags & 3;
            if((flags >> 24) % 4 == 0)
                o.imbue(odd_locale<char>());
            if(adj == 1)
                o << std::left;
            else if(adj == 2)
                o << std::right;
            else if(adj == 3)
                o << std::internal;
            if(base != 10)
                o.setf(base == 16 ? std::ios_base::hex : base == 8 ? std::ios_base::oct : std::ios_base::fmtflags(), std::ios_base::basefield);
            if(upper)
                o << std::uppercase;
            if(flags & 16)
                o << std::showpos;
            if(flags & 32)
                o << std::showbase << std::showpoint;
            if(flags & 64)
                o << std::fixed << std::setprecision((flags >> 20) % 9);
            if(flags & 128)
                o << std::scientific << std::boolalpha << std::unitbuf;
            o << std::setfill(fill) << '<' << std::setw((int)w);
            auto before = o.flags();
            const auto precision = o.precision();
            at("operator<< field", M::name(), (i64)a, (i64)w, flags);
            mb.see(A, 64 + (flags & 255) + base * 1000 + upper * 500);
            o << x << x << '>';
            std::string pad(w > e.size() ? w - e.size() : 0, fill), f = adj == 1 ? e + pad : pad + e;
            const std::string want2 = "<" + f + e + ">";
            if(o.str() != want2)
                bad("field", A, o.str(), want2);
            if(o.flags() != before || o.width() != 0 || o.fill() != fill || o.precision() != precision)
                bad("flags", A, "other format flags", "the same flags");
        }
        // a stream that has failed is left alone
        {
            std::ostringstream o;
            o.setstate(std::ios_base::failbit);
            o << x;
            mb.see(A, 500);
            if(!o.str().empty() || !o.fail())
                bad("failed stream", A, o.str(), "");
        }
        // straight to a buffer
        for(unsigned base : {2u, 8u, 10u, 16u})
            for(bool upper : {false, true})
            {
                const std::string e = expand(A, M::frac, base, upper);
                at("copy_as_chars_to", M::name(), (i64)a, base);
                mb.see(A, base + 32);
                std::vector<char> out(e.size() + 64, '#');
                char* end = F::copy_as_chars_to(x, out.data(), (int)base, upper);
                if(std::string(out.data(), end) != e || *end != '#')
                    bad("copy_as_chars_to", A, std::string(out.data(), end), e);
                if(!upper)
                {
                    // in lower case, and in base 10, unless told otherwise; through any output iterator
                    std::string s;
                    F::copy_as_chars_to(x, std::back_inserter(s), (int)base);
                    if(s != e)
                        bad("copy_as_chars_to default case", A, s, e);
                    if(base == 10)
                    {
                        std::string d;
                        F::copy_as_chars_to(x, std::back_inserter(d));
                        if(d != e)
                            bad("copy_as_chars_to default base", A, d, e);
                        std::wstring w;
                        F::copy_as_chars_to(x, std::back_inserter(w));
                        if(w != std::wstring(e.begin(), e.end()))
                            bad("copy_as_chars_to wide", A, std::string(w.begin(), w.end()), e);
                    }
                }
            }
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; a += opt.tiny ? 37 : 1)
                one((T)a, sizeof(T) == 1 && a < 256);
        for(T a : v)
            one(a, true);
        for(u64 i = 0, n = reps(4000000, 100000); i < n; ++i)
            one(random_raw<T>(g, v), i % 32 == 0);
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("write ") + fmt<F>::name(), [](rng_t& g)
                        {
                            writer<F> d;
                            d.run(g);
                        }});
    };
#if PART == 0
    flist<S64<1>, S64<62>, S64<56>, S32<16>, S64<32>, S32<8>, S32<24>, S32<31>, S64<16>, S64<48>, S64<63>, S32<16, true>, S64<32, true>>::each(go);
#else
    flist<S16<15>, S16<1>, U8<7>, U16<15>, U64<16>, S16<8>, S8<4>, S8<7>, S8<1>, U32<16>, U64<32>, U64<63>, U16<8>, U8<4>, U32<31>, S32W<16>>::each(go);
#endif
    run_jobs(std::move(jobs));
}
