#define VF_QUICK 25
// C19: numbers written to text are read back.
#include "text.hpp"
#include <eirin/io/format.hpp>
#include <format>
#include <sstream>
using namespace vf;

template <typename F>
struct trip
{
    using M = fmt<F>;
    using T = typename M::store;
    std::string nm = M::name();
    meter_t m{"round trip " + nm}, ml{"lists " + nm}, mf{"formatted " + nm};
    i64 unit = (i64)(((u128)1 << M::frac) / [] { u128 p = 1; for(size_t i = 0; i < exact_digits(M::frac); ++i) p *= 10; return p; }()) + 1;

    // the value read back is not larger in magnitude, of the same sign, and close
    bool close(T a, F x, i64 tol)
    {
        i128 A = (i128)a, X = (i128)x.internal_value();
        i128 d = A < 0 ? X - A : A - X;
        return d >= 0 && d <= tol && (X == 0 || (X < 0) == (A < 0));
    }
    i64 tolerance(T a)
    {
        std::string s = exact_decimal((i128)a, M::frac);
        size_t p = s.find('.');
        return p == std::string::npos || s.size() - p - 1 <= exact_digits(M::frac) ? 0 : unit;
    }
    void one(T a)
    {
        const F x = M::mk(a);
        at("round trip", M::name(), (i64)a);
        m.see((i128)a);
        std::stringstream ss;
        ss << x;
        const std::string s = ss.str();
        F y = M::mk(0x33), z = M::mk(0x33);
        ss >> y;
        const i64 tol = tolerance(a);
        if(ss.fail() || !close(a, y, tol))
            fail("stream " + nm, "raw " + str128((i128)a) + " written as \"" + s + "\" came back as raw " + str128((i128)y.internal_value()));
        if(!eirin::fixed_from_cstring(s.data(), s.size(), z) || !close(a, z, tol))
            fail("fixed_from_cstring " + nm, "raw " + str128((i128)a) + " written as \"" + s + "\" came back as raw " + str128((i128)z.internal_value()));
        if constexpr(std::is_same_v<F, eirin::fixed32>)
        {
            F w = M::mk(0x33);
            if(!eirin::f32_from_cstring(s.data(), s.size(), w) || !close(a, w, tol))
                fail("f32_from_cstring " + nm, "raw " + str128((i128)a) + " written as \"" + s + "\" came back as raw " + str128((i128)w.internal_value()));
            const char* p = eirin::io::parse(std::string_view(s), w);
            if(p != s.data() + s.size() || !close(a, w, tol))
                fail("io::parse " + nm, "raw " + str128((i128)a) + " written as \"" + s + "\" came back as raw " + str128((i128)w.internal_value()));
        }
    }
    // std::format with precision p loses less than 10^-p
    void formatted(T a, int p)
    {
        const F x = M::mk(a);
        at("formatted round trip", M::name(), (i64)a, p);
        mf.see((i128)a, p);
        const std::string s = std::vformat("{:." + std::to_string(p) + "f}", std::make_format_args(x));
        F y = M::mk(0x33);
        if(!eirin::fixed_from_cstring(s.data(), s.size(), y))
        {
            fail("formatted " + nm, "\"" + s + "\" is rejected");
            return;
        }
        i128 tol = ((i128)1 << M::frac);
        for(int i = 0; i < p; ++i)
            tol /= 10;
        tol += 1;
        if((size_t)p > exact_digits(M::frac))
            tol += unit;
        if(!close(a, y, (i64)std::min<i128>(tol, std::numeric_limits<i64>::max())))
            fail("formatted " + nm, "raw " + str128((i128)a) + " written as \"" + s + "\" came back as raw " + str128((i128)y.internal_value()));
    }
    // several numbers in one stream: none lost, none invented, in order
    void list(rng_t& g, const std::vector<T>& v)
    {
        size_t n = g.below(40);
        std::vector<T> in;
        std::stringstream ss;
        if(g.chance(1, 4))
            ss.imbue(odd_locale<char>());
        static const char* seps[] = {" ", "\n", "\t", "  ", " \n "};
        for(size_t i = 0; i < n; ++i)
        {
            in.push_back(random_raw<T>(g, v));
            if(g.chance(1, 3))
            {
                ss << (g.chance(1, 2) ? std::left : std::right);
                ss.width((std::streamsize)g.below(60));
            }
            // flags of the numbers of other types make no difference
            if(g.chance(1, 3))
            {
                const std::ios_base::fmtflags other[] = {std::ios_base::fixed, std::ios_base::scientific, std::ios_base::showpoint, std::ios_base::showpos, std::ios_base::showbase, std::ios_base::uppercase, std::ios_base::boolalpha, std::ios_base::unitbuf};
                for(auto fl : other)
                    ss.setf(g.chance(1, 3) ? fl : std::ios_base::fmtflags(), fl);
                ss.precision((std::streamsize)g.below(12));
            }
            ss << M::mk(in.back());
            if(i + 1 < n || g.chance(1, 2))
                ss << seps[g.below(5)];
        }
        at("list", M::name(), (i64)n);
        ml.see((i128)n, (i128)g.s & 255);
        std::vector<F> out, wide;
        auto drain = [&](auto& is, std::vector<F>& to)
        {
            F x = M::mk(0);
            const bool throwing = g.chance(1, 4);
            bool thrown = false;
            try
            {
                if(throwing)
                    is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                while(is >> x)
                {
                    to.push_back(x);
                    if(to.size() > n + 5)
                        break;
                }
            }
            catch(const std::ios_base::failure&)
            {
                thrown = true;
            }
            is.exceptions(std::ios_base::goodbit);
            if(thrown != throwing || !is.fail())
                fail("list end " + nm, strf("after %zu of %zu numbers the stream %s", to.size(), n, thrown ? "threw" : "did not report the end"));
        };
        // the same text through a stream of wide characters
        const std::string all = ss.str();
        std::wstringstream ws(std::wstring(all.begin(), all.end()));
        if(g.chance(1, 4))
            ws.imbue(odd_locale<wchar_t>());
        drain(ws, wide);
        drain(ss, out);
        if(wide.size() != n || !ws.eof())
        {
            fail("wide list length " + nm, strf("%zu numbers written, %zu read: ", n, wide.size()) + escape(all).substr(0, 300));
            return;
        }
        if(out.size() != n || !ss.eof())
        {
            fail("list length " + nm, strf("%zu numbers written, %zu read: ", n, out.size()) + escape(ss.str()).substr(0, 300));
            return;
        }
        for(size_t i = 0; i < n; ++i)
            if(!(wide[i] == out[i]))
                fail("wide list " + nm, strf("element %zu: raw ", i) + str128((i128)in[i]) + " came back as raw " + str128((i128)wide[i].internal_value()));
            else if(!close(in[i], out[i], tolerance(in[i])))
                fail("list " + nm, strf("element %zu: raw ", i) + str128((i128)in[i]) + " came back as raw " + str128((i128)out[i].internal_value()));
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        if(sizeof(T) <= 2)
            for(int a = 0; a < 65536; a += opt.tiny ? 37 : 1)
                one((T)a);
        for(T a : v)
            one(a);
        for(u64 i = 0, n = reps(3000000, 60000); i < n; ++i)
        {
            one(random_raw<T>(g, v));
            formatted(random_raw<T>(g, v), (int)g.below(14));
            if(i % 16 == 0)
                list(g, v);
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("round trip ") + fmt<F>::name(), [](rng_t& g)
                        {
                            trip<F> d;
                            d.run(g);
                        }});
    };
    flist<S32<1>, S32<30>, S64<1>, S64<62>, S16<14>, S16<1>, S8<6>, S8<1>, U8<4>, U8<7>, U16<15>, U32<31>, U64<63>, S32W<16>, S16<8, true>, U32<16, true>, S64<56>, S32<16>, S64<32>, S32<8>, S32<24>, S64<16>, S64<48>, S16<8>, S8<4>, U32<16>, U64<32>, U16<8>, S32<16, true>>::each(go);
    run_jobs(std::move(jobs));
}
