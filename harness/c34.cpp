#define VF_QUICK 10
#ifndef PART
#    define PART 0
#endif
// C34: the 128-bit integer extension, against the compiler's own.
#include "formats.hpp"
#include <eirin/ext/builtin_ints.hpp>
using namespace vf;
using W = eirin::ext::int128;

static i128 value(W w)
{
    return (i128)((u128)(u64)w.high_bits() << 64 | (u128)(u64)w.low_bits());
}
static W make(i128 v)
{
    return W((int64_t)(u64)((u128)v >> 64), (int64_t)(u64)v);
}

template <typename N>
void integers(rng_t& g, const char* nm)
{
    meter_t m(std::string("int128 from ") + nm);
    auto one = [&](N n)
    {
        at("int128 from", nm, (i64)n);
        const W w(n);
        W c = w, d;
        d = c;
        m.see((i128)n);
        if(value(w) != (i128)n || value(c) != (i128)n || value(d) != (i128)n)
            fail(std::string("int128 from ") + nm, str128((i128)n) + " is held as " + str128(value(w)));
    };
    using L = std::numeric_limits<N>;
    if constexpr(sizeof(N) <= 2)
        for(i64 v = L::min(); v <= (i64)L::max(); ++v)
            one((N)v);
    else
        for(u64 i = 0, n = reps(2000000, 100000); i < n; ++i)
        {
            const u64 k = g.next();
            one((N)(k >> g.below(64)));
            one((N)(0 - (k >> g.below(64))));
            one((N)(L::max() - (N)g.below(3)));
            one((N)(L::min() + (N)g.below(3)));
        }
}

template <typename R>
void reals(rng_t& g, const char* nm)
{
    meter_t m(std::string("int128 from ") + nm);
    for(u64 i = 0, n = reps(2000000, 100000); i < n; ++i)
    {
        R v = std::ldexp((R)(i64)g.next(), -(int)g.below(80));
        if(!(v > -0x1p63 && v < 0x1p63))
            continue;
        at("int128 from", nm, (i64)v);
        const W w(v);
        m.see((i128)v);
        if(value(w) != (i128)v)
            fail(std::string("int128 from ") + nm, strf("%.20g is held as ", (double)v) + str128(value(w)));
    }
}

static i128 pick(rng_t& g)
{
    i128 v = (i128)((u128)g.next() << 64 | g.next());
    switch(g.below(6))
    {
    case 0:
        break;
    case 1:
        v >>= 1 + g.below(126); // every magnitude
        break;
    case 2: // around the ends of one half
        v = (((i128)1 << (31 + g.below(3) * 16 + g.below(3))) - 1 + (i128)g.below(3)) * (g.below(2) ? 1 : -1);
        break;
    case 3: // the low half nearly overflows, whatever is above it
        v = (v & ~(i128)(u128)UINT64_MAX) | (i128)(u128)(u64)((g.below(2) ? (u64)INT64_MAX : UINT64_MAX) - 2 + g.below(5));
        break;
    case 4:
        v = (i128)g.below(5) - 2;
        break;
    default:
        v = (i128)(i64)g.next();
    }
    return v;
}

void workload()
{
    std::vector<job_t> jobs;
    jobs.push_back({"int8", [](rng_t& g) { integers<signed char>(g, "signed char"); integers<char>(g, "char"); integers<unsigned char>(g, "unsigned char"); }});
    jobs.push_back({"int16", [](rng_t& g) { integers<short>(g, "short"); integers<unsigned short>(g, "unsigned short"); integers<wchar_t>(g, "wchar_t"); }});
    jobs.push_back({"int32", [](rng_t& g) { integers<int>(g, "int"); integers<unsigned>(g, "unsigned"); }});
    jobs.push_back({"int64", [](rng_t& g) { integers<long>(g, "long"); integers<long long>(g, "long long"); }});
    jobs.push_back({"uint64", [](rng_t& g) { integers<unsigned long>(g, "unsigned long"); integers<unsigned long long>(g, "unsigned long long"); }});
    jobs.push_back({"real", [](rng_t& g) { reals<float>(g, "float"); reals<double>(g, "double"); }});
    jobs.push_back({"halves", [](rng_t& g)
                    {
                        meter_t m("int128 halves");
                        for(u64 i = 0, n = reps(4000000, 200000); i < n; ++i)
                        {
                            const i64 h = (i64)g.next(), l = (i64)g.next();
                            at("int128 halves", "s", h, l);
                            W w(h, l), u((u64)h, (u64)l);
                            m.see(h, l);
                            if(w.high_bits() != h || w.low_bits() != l || u.high_bits() != h || u.low_bits() != l)
                                fail("int128 halves", str128(h) + ", " + str128(l));
                        }
                    }});
    for(int k = 0; k < 2; ++k)
        jobs.push_back({"sums", [](rng_t& g)
                        {
                            meter_t m("int128 sum"), mn("int128 narrowed"), mc("int128 carries");
                            for(u64 i = 0, n = reps(8000000, 400000); i < n; ++i)
                            {
                                const i128 a = pick(g), b = pick(g);
                                i128 s;
                                if(__builtin_add_overflow(a, b, &s))
                                    continue;
                                at("int128 sum", "s", (i64)(a >> 64), (i64)a, (i64)b);
                                const W x = make(a), y = make(b), z = x + y;
                                m.see(a, b);
                                if((u64)s < (u64)a)
                                    mc.see(a, b);
                                if(value(z) != s || value(x) != a || value(y) != b)
                                    fail("int128 sum", str128(a) + " + " + str128(b) + " = " + str128(value(z)));
                                const i128 top = std::numeric_limits<int64_t>::max(), bottom = std::numeric_limits<int64_t>::min();
                                at("int128 narrowed", "s", (i64)(s >> 64), (i64)s);
                                const int64_t q = (int64_t)z;
                                mn.see(s);
                                if(q != (s > top ? top : s < bottom ? bottom : s))
                                    fail("int128 narrowed", str128(s) + " became " + str128(q));
                            }
                        }});
    run_jobs(std::move(jobs));
}
