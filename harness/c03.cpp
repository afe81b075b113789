#define VF_QUICK 4
// C03: comparison, hashing, min/max and the nearly_* relations.
#include "formats.hpp"
#include <unordered_set>
#include <compare>
using namespace vf;

template <typename F>
struct ops
{
    using M = fmt<F>;
    using T = typename M::store;
    meter_t m{std::string("compare ") + M::name()}, near{std::string("nearly ") + M::name()};
    // 5 * 2^-16, truncated (or rounded, ties away) to the format
    i128 eps;
    ops()
    {
        i128 n = 5;
        if(M::frac >= 16)
            eps = n << (M::frac - 16);
        else
        {
            eps = n >> (16 - M::frac);
            if(M::rounding && ((n >> (15 - M::frac)) & 1))
                eps += 1;
        }
    }

    void one(T a, T b)
    {
        const F x = M::mk(a), y = M::mk(b);
        const i128 A = (i128)a, B = (i128)b;
        m.see(A, B);
        at("compare", M::name(), a, b);
        auto rel = [&](const char* op, bool got, bool want)
        {
            if(got != want)
                fail(std::string(op) + " " + M::name(), std::string(op) + " of raw " + str128(A) + " and raw " + str128(B) + " is " + (got ? "true" : "false"));
        };
        rel("==", x == y, A == B);
        rel("!=", x != y, A != B);
        rel("<", x < y, A < B);
        rel("<=", x <= y, A <= B);
        rel(">", x > y, A > B);
        rel(">=", x >= y, A >= B);
        auto c = x <=> y;
        rel("<=> less", c < 0, A < B);
        rel("<=> equal", c == 0, A == B);
        rel("<=> greater", c > 0, A > B);
        rel("min", (i128)min(x, y).internal_value() == std::min(A, B), true);
        rel("max", (i128)max(x, y).internal_value() == std::max(A, B), true);
        if(A == B)
        {
            eirin::fixed_hash<F> h;
            rel("equal numbers hash equal", h(x) == h(y), true);
        }
        at("nearly", M::name(), a, b);
        near.see(A, B);
        const i128 d = A - B;
        rel("nearly_eq", x.nearly_eq(y), d <= eps && d >= -eps);
        rel("nearly_ne", x.nearly_ne(y), d > eps || d < -eps);
        rel("nearly_gt", x.nearly_gt(y), d > eps);
        rel("nearly_lt", x.nearly_lt(y), d < -eps);
        rel("nearly_gt_eq", x.nearly_gt_eq(y), d >= -eps);
        rel("nearly_lt_eq", x.nearly_lt_eq(y), d <= eps);
    }
    void unary(T a)
    {
        {
            at("abs", M::name(), a);
            i128 w = std::min<i128>(a < 0 ? -(i128)a : (i128)a, hi_of<T>()), g = (i128)abs(M::mk(a)).internal_value();
            if(g != w)
                fail(std::string("abs ") + M::name(), "abs of raw " + str128((i128)a) + " gave raw " + str128(g));
        }
    }
    void containers(rng_t& g, const std::vector<T>& v)
    {
        // sorting and hashing whole sets of values
        at("containers", M::name(), 0);
        std::vector<F> xs;
        std::vector<T> raw;
        for(int i = 0; i < 3000; ++i)
        {
            T a = random_raw<T>(g, v);
            xs.push_back(M::mk(a));
            raw.push_back(a);
        }
        std::sort(xs.begin(), xs.end());
        std::sort(raw.begin(), raw.end());
        for(size_t i = 0; i < raw.size(); ++i)
            if(xs[i].internal_value() != raw[i])
            {
                fail(std::string("sort ") + M::name(), "sorted order differs from the order of the values");
                break;
            }
        std::unordered_set<F, eirin::fixed_hash<F>> us(xs.begin(), xs.end());
        std::set<T> rs(raw.begin(), raw.end());
        if(us.size() != rs.size())
            fail(std::string("hash set ") + M::name(), "hash set has " + std::to_string(us.size()) + " elements, expected " + std::to_string(rs.size()));
        for(T r : rs)
            if(!us.count(M::mk(r)))
            {
                fail(std::string("hash set ") + M::name(), "lost raw " + str128((i128)r));
                break;
            }
        m.n += 3000;
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        for(unsigned p = 0; p < (opt.thorough ? 8u : 1u); ++p)
        jobs.push_back({std::string("compare ") + fmt<F>::name() + " " + std::to_string(p), [p](rng_t& g)
                        {
                            using T = typename fmt<F>::store;
                            ops<F> o;
                            auto v = interesting_of<F>();
                            if(p == 0)
                            {
                                for(T a : v)
                                    for(T b : v)
                                        o.one(a, b);
                                if(sizeof(T) <= 2)
                                    for(int a = 0; a < (1 << (8 * std::min<int>(sizeof(T), 2))); ++a)
                                        o.unary((T)a);
                                for(T a : v)
                                    o.unary(a);
                            }
                            if(sizeof(T) == 1)
                            {
                                for(int a = 0; a < 256; ++a)
                                    for(int b = 0; b < 256; ++b)
                                        o.one((T)a, (T)b);
                            }
                            else
                            {
                                u64 n = reps(20000000, 2500000);
                                for(u64 i = 0; i < n; ++i)
                                {
                                    T a = random_raw<T>(g, v), b = random_raw<T>(g, v);
                                    u64 r = g.next();
                                    if((r & 3) == 0)
                                        b = a;
                                    else if((r & 3) == 1) // within a few units around +-epsilon
                                    {
                                        i64 d = (i64)o.eps + (i64)((r >> 8) % 7) - 3;
                                        i128 w = (i128)a + (((r >> 20) & 1) ? d : -d);
                                        if(fits<T>(w))
                                            b = (T)w;
                                    }
                                    o.one(a, b);
                                    o.unary(a);
                                }
                            }
                            o.containers(g, v);
                        }});
    };
    flist<S8<1>, S8<4>, S8<7>, U8<4>, U8<7>, S16<8>, S16<13>, S16<14>, U16<8>, S16<12, true>>::each(go);
    flist<S32<16>, S32<8>, S32<24>, S32<31>, U32<16>, U32<31>, S32<16, true>, S32<14, true>>::each(go);
    flist<S64<32>, S64<16>, S64<63>, S64<48>, U64<32>, U64<63>, S64<32, true>>::each(go);
    run_jobs(std::move(jobs));
}
