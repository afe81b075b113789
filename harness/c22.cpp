#define VF_QUICK 20
#ifndef PART
#    define PART 0
#endif
// C22: distributions of fixed point numbers.
#include "formats.hpp"
#include <random>
using namespace vf;

template <typename D, typename F, typename U, bool wrapped>
struct dist_watch
{
    using M = fmt<F>;
    using T = typename M::store;
    using P = typename D::param_type;
    std::string nm;
    meter_t in{"draws " + nm}, par{"parameters " + nm}, full{"coverage " + nm};
    explicit dist_watch(std::string n) : nm(std::move(n)) {}
    void bad(const char* what, std::string d) { fail(std::string(what) + " " + nm, d); }

    void draw(const char* what, F v, T a, T b, T want)
    {
        in.see((i128)v.internal_value(), (i128)b - (i128)a);
        if(v.internal_value() < a || v.internal_value() > b)
            bad("within the range", std::string(what) + ": raw " + str128((i128)v.internal_value()) + " not in [" + str128((i128)a) + ", " + str128((i128)b) + "]");
        else if(v.internal_value() != want)
            bad("matches the integral distribution", std::string(what) + ": raw " + str128((i128)v.internal_value()) + ", expected raw " + str128((i128)want) + " in [" + str128((i128)a) + ", " + str128((i128)b) + "]");
    }
    void params(const char* what, const D& d, T a, T b)
    {
        par.see((i128)a, (i128)b);
        if(d.a().internal_value() != a || d.b().internal_value() != b || d.min().internal_value() != a || d.max().internal_value() != b || d.param().a().internal_value() != a || d.param().b().internal_value() != b)
            bad("reported parameters", std::string(what) + ": [" + str128((i128)a) + ", " + str128((i128)b) + "]");
    }

    template <typename G, typename E>
    void history(rng_t& g, G& src, E& ref)
    {
        auto base = interesting_of<F>(false);
        auto range = [&](T& a, T& b)
        {
            switch(g.below(5))
            {
            case 0: // narrow
                a = random_raw<T>(g, base);
                b = (i128)a + 20 > hi_of<T>() ? std::numeric_limits<T>::max() : (T)(a + (T)g.below(20));
                break;
            case 1: // one value
                a = b = random_raw<T>(g, base);
                break;
            default:
                a = random_raw<T>(g, base);
                b = random_raw<T>(g, base);
            }
            if(a > b)
                std::swap(a, b);
        };
        auto expect = [&](T a, T b) { return (T)std::uniform_int_distribution<U>((U)a, (U)b)(ref); };
        T a, b;
        range(a, b);
        at("distribution history", nm.c_str(), (i64)a, (i64)b);
        D d(M::mk(a), M::mk(b));
        if(g.chance(1, 10))
        {
            d = D();
            a = std::numeric_limits<T>::min();
            b = std::numeric_limits<T>::max();
        }
        else if(g.chance(1, 4))
            d = D(P(M::mk(a), M::mk(b)));
        for(unsigned i = 0, n = 1 + (unsigned)g.below(25); i < n; ++i)
        {
            at("distribution history", nm.c_str(), (i64)a, (i64)b, i);
            switch(g.below(7))
            {
            case 0:
                range(a, b);
                d.param(P(M::mk(a), M::mk(b)));
                params("param(p)", d, a, b);
                break;
            case 1: // a draw with other parameters leaves the distribution's own alone
                {
                    T x, y;
                    range(x, y);
                    P p(M::mk(x), M::mk(y));
                    T want = expect(x, y);
                    draw("draw with parameters", d(src, p), x, y, want);
                    params("after a draw with parameters", d, a, b);
                    break;
                }
            case 2:
                d.reset();
                params("reset", d, a, b);
                break;
            case 3:
                {
                    D c = d;
                    params("copy", c, a, b);
                    P p(M::mk(a), M::mk(b)), q(M::mk(a), M::mk(b));
                    par.see((i128)a, (i128)b);
                    if(!(p == q) || p != q || !(p == c.param()))
                        bad("equal parameters", "[" + str128((i128)a) + ", " + str128((i128)b) + "]");
                    for(int k = 0; k < 6; ++k)
                    {
                        // equal exactly when both ends are
                        i128 x = (i128)a + (i128)g.below(9) - 4, y = (i128)b + (g.chance(1, 2) ? x - (i128)a : (i128)g.below(9) - 4);
                        if(x > y || x < lo_of<T>() || y > hi_of<T>())
                            continue;
                        P o(M::mk((T)x), M::mk((T)y));
                        par.see(x, y);
                        bool want = x == (i128)a && y == (i128)b;
                        if((o == p) != want || (p == o) != want || (o != p) == want || (c.param() == o) != want)
                            bad("equality of parameters", "[" + str128((i128)a) + ", " + str128((i128)b) + "] and [" + str128(x) + ", " + str128(y) + "]");
                    }
                    if(a != b)
                    {
                        P o(M::mk(a), M::mk((i128)b - 1)), o2(M::mk((i128)a + 1), M::mk(b));
                        if(o == p || !(o != p) || o2 == p || !(o2 != p))
                            bad("different parameters", "[" + str128((i128)a) + ", " + str128((i128)b) + "]");
                    }
                    break;
                }
            default:
                for(int k = 0; k < 3; ++k)
                {
                    T want = expect(a, b);
                    draw("draw", d(src), a, b, want);
                }
            }
        }
    }
    // small ranges: every value comes up, and about equally often
    template <typename G, typename E>
    void coverage(rng_t& g, G& src, E&)
    {
        auto base = interesting_of<F>(false);
        for(u64 r = 0, n = reps(300, 12); r < n; ++r)
        {
            T a = random_raw<T>(g, base);
            unsigned w = 2 + (unsigned)g.below(16);
            if((i128)a + w - 1 > hi_of<T>())
                a = (T)(hi_of<T>() - w + 1);
            T b = (T)(a + (T)(w - 1));
            D d(M::mk(a), M::mk(b));
            std::vector<u64> hits(w);
            const u64 per = 400;
            for(u64 i = 0; i < per * w; ++i)
            {
                at("coverage", nm.c_str(), (i64)a, (i64)b, (i64)i);
                F v = d(src);
                full.see((i128)v.internal_value(), w);
                i128 k = (i128)v.internal_value() - (i128)a;
                if(k < 0 || k >= (i128)w)
                {
                    bad("within the range", "raw " + str128((i128)v.internal_value()) + " not in [" + str128((i128)a) + ", " + str128((i128)b) + "]");
                    break;
                }
                ++hits[(size_t)k];
            }
            for(unsigned k = 0; k < w; ++k)
                if(hits[k] < per / 3 || hits[k] > per * 3)
                    bad("uniform", strf("value %u of %u drawn %llu times of %llu", k, w, (unsigned long long)hits[k], (unsigned long long)(per * w)));
        }
    }
};

template <typename F, typename U, typename E>
void plain(rng_t& g, std::string en)
{
    using D = eirin::fixed_int_distribution_adapter<F, std::uniform_int_distribution<U>>;
    dist_watch<D, F, U, false> w("direct " + std::string(fmt<F>::name()) + " " + en);
    for(u64 i = 0, n = reps(100000, 2500); i < n && !too_many(); ++i)
    {
        auto s = g.chance(1, 8) ? (uint32_t)g.below(4) : (uint32_t)g.next();
        E src(s), ref(s);
        w.history(g, src, ref);
    }
    E src(12345u), ref(12345u);
    w.coverage(g, src, ref);
}
template <typename F, typename U, typename E>
void through(rng_t& g, std::string en)
{
    using D = eirin::fixed_distribution_adapter<F, std::uniform_int_distribution<U>>;
    using A = eirin::fixed_random_engine_adapter<F, E>;
    dist_watch<D, F, U, true> w("through " + std::string(fmt<F>::name()) + " " + en);
    for(u64 i = 0, n = reps(100000, 2500); i < n && !too_many(); ++i)
    {
        auto s = g.chance(1, 8) ? (uint32_t)g.below(4) : (uint32_t)g.next();
        A src;
        src.seed(s);
        E ref(s);
        w.history(g, src, ref);
    }
    A src;
    E ref;
    w.coverage(g, src, ref);
}

void workload()
{
    std::vector<job_t> jobs;
#define GO(W, F, U, E) jobs.push_back({std::string(#W " " #E " ") + fmt<F>::name(), [](rng_t& g) { W<F, U, E>(g, #E); }})
    GO(plain, eirin::fixed32, int, eirin::mt19937);
    GO(plain, eirin::fixed32, int, eirin::pcg2014);
    GO(plain, eirin::fixed32, int, eirin::pcg2014_64);
    GO(plain, eirin::fixed32, int, eirin::minstd_rand);
    GO(plain, eirin::fixed32, int64_t, eirin::mt19937_64);
    GO(plain, eirin::fixed64, int64_t, eirin::mt19937_64);
    GO(plain, eirin::fixed64, int64_t, eirin::mt19937);
    GO(plain, eirin::fixed64, int64_t, eirin::pcg2014);
    GO(plain, eirin::fixed64, int64_t, eirin::pcg2014_64);
    GO(plain, U32<16>, uint32_t, eirin::mt19937);
    GO(plain, U64<32>, uint64_t, eirin::pcg2014_64);
    GO(plain, S16<8>, int16_t, eirin::mt19937);
    GO(plain, S32W<16>, int, eirin::mt19937);
    typedef S32<20, true> s32_20r;
    GO(plain, s32_20r, int, eirin::mt19937);
    GO(plain, S32<1>, int, eirin::pcg2014);
    GO(plain, S64<62>, int64_t, eirin::mt19937_64);
    GO(plain, U16<8>, uint16_t, eirin::mt19937);
    GO(plain, S16<14>, int, eirin::pcg2014);
    GO(plain, U8<4>, uint16_t, eirin::mt19937);
    GO(plain, S8<7>, int, eirin::minstd_rand0);
    GO(plain, U64<63>, uint64_t, eirin::mt19937);
    GO(through, eirin::fixed32, int, eirin::mt19937);
    GO(through, eirin::fixed32, int, eirin::mt19937_64);
    GO(through, eirin::fixed32, int, eirin::pcg2014);
    GO(through, eirin::fixed64, int64_t, eirin::mt19937_64);
    GO(through, eirin::fixed64, int64_t, eirin::pcg2014_64);
    GO(through, eirin::fixed64, int64_t, eirin::mt19937);
    run_jobs(std::move(jobs));
}
