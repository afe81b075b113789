#define VF_QUICK 4
// C04: conversions between fixed numbers and built-in integers / floating point numbers.
#include "formats.hpp"
using namespace vf;

template <typename N>
const char* nname()
{
    static const std::string s = std::is_floating_point_v<N> ? "float" + std::to_string(std::numeric_limits<N>::digits) : std::string(std::is_signed_v<N> ? "i" : "u") + std::to_string(sizeof(N) * 8);
    return s.c_str();
}

template <typename F, typename N>
void int_one(meter_t& m, typename fmt<F>::store a, N n)
{
    using M = fmt<F>;
    using T = typename M::store;
    // integer -> fixed
    i128 B = (i128)n;
    i128 w = B * ((i128)1 << M::frac);
    if(fits<T>(w))
    {
        at("from integer", M::name(), (i64)n);
        m.see(B, 0);
        F x(n);
        if((i128)x.internal_value() != w)
            fail(std::string("from int ") + M::name() + " " + nname<N>(), "construction from " + str128(B) + " gave raw " + str128((i128)x.internal_value()));
        F y = (F)n;
        if(!(x == y))
            fail(std::string("cast from int ") + M::name(), str128(B));
        if(static_cast<N>(x) != n)
            fail(std::string("int round trip ") + M::name() + " " + nname<N>(), "from " + str128(B) + " back to " + str128((i128)static_cast<N>(x)));
    }
    // fixed -> integer : floor
    i128 A = (i128)a;
    i128 q = A >> M::frac;
    if(fits<N>(q))
    {
        at("to integer", M::name(), (i64)a);
        m.see(A, 1);
        N got = static_cast<N>(M::mk(a));
        if((i128)got != q)
            fail(std::string("to int ") + M::name() + " " + nname<N>(), "raw " + str128(A) + " cast to " + str128((i128)got) + ", expected " + str128(q));
    }
}

template <typename F, typename N>
void float_one(meter_t& m, typename fmt<F>::store a, N x)
{
    using M = fmt<F>;
    using T = typename M::store;
    const i128 A = (i128)a;
    // fixed -> floating: the value, correctly rounded to the target type
    {
        at("to floating", M::name(), (i64)a);
        m.see(A, 0);
        long double exact = std::ldexp((long double)a, -(int)M::frac); // 64 bit mantissa: exact
        N want = (N)exact, got = static_cast<N>(M::mk(a));
        if(!(got == want))
            fail(std::string("to float ") + M::name() + " " + nname<N>(), strf("raw %s cast to %.20Lg, expected %.20Lg", str128(A).c_str(), (long double)got, (long double)want));
        // fixed -> floating -> fixed is the identity when the target type holds every bit
        if((int)M::bits - (M::is_signed ? 1 : 0) <= std::numeric_limits<N>::digits - 1)
        {
            F back(got);
            if(back.internal_value() != a)
                fail(std::string("float round trip ") + M::name() + " " + nname<N>(), strf("raw %s came back as raw %s", str128(A).c_str(), str128((i128)back.internal_value()).c_str()));
        }
    }
    // floating -> fixed
    long double sc = std::ldexp((long double)x, (int)M::frac); // exact
    long double lim = std::ldexp(1.0L, (int)M::bits - (M::is_signed ? 1 : 0));
    if(sc < lim - 1 && (M::is_signed ? sc > -lim + 1 : sc >= 0))
    {
        at("from floating", M::name(), (i64)(i128)sc);
        m.see((i128)sc, 1);
        F f(x);
        i128 got = (i128)f.internal_value();
        if(!M::rounding)
        {
            i128 want = (i128)sc; // toward zero
            if(got != want)
                fail(std::string("from float ") + M::name() + " " + nname<N>(), strf("%.20Lg gave raw %s, expected %s", (long double)x, str128(got).c_str(), str128(want).c_str()));
        }
        else
        {
            // nearest, ties away from zero
            long double err = std::fabs((long double)got - sc);
            bool tie = std::fabs(sc - std::trunc(sc)) == 0.5L;
            if(err > 0.5L || (tie && std::fabs((long double)got) < std::fabs(sc)))
                fail(std::string("from float ") + M::name() + " " + nname<N>(), strf("%.20Lg (scaled %.20Lg) rounded to raw %s", (long double)x, sc, str128(got).c_str()));
        }
    }
}

template <typename N>
N random_float(rng_t& g, unsigned frac, unsigned bits)
{
    u64 r = g.next();
    i64 v = (i64)g.next() >> (g.next() % 64);
    int e = -(int)frac;
    switch(r & 3)
    {
    case 0: e -= (int)(g.next() % 12); break; // below the resolution
    case 1: e += (int)(g.next() % 4); break;
    default: break;
    }
    N x = (N)std::ldexp((long double)(v >> (64 - std::min(63u, bits))), e);
    if((r & 0x70) == 0)
        x = std::nextafter(x, (r & 0x80) ? (N)1e30 : (N)-1e30);
    return x;
}

template <typename F>
void add(std::vector<job_t>& jobs)
{
    using M = fmt<F>;
    using T = typename M::store;
    auto ints = [&]<typename N>()
    {
        jobs.push_back({std::string("int ") + M::name() + " " + nname<N>(), [](rng_t& g)
                        {
                            meter_t m(std::string("int ") + M::name() + " " + nname<N>());
                            auto v = interesting_of<F>();
                            if(sizeof(T) <= 2)
                                for(int a = 0; a < 65536; ++a)
                                    int_one<F, N>(m, (T)a, (N)a);
                            for(T a : v)
                                for(int k = -40; k < 40; ++k)
                                    int_one<F, N>(m, a, (N)k);
                            for(u64 i = 0, n = reps(30000000, 500000); i < n; ++i)
                            {
                                i64 k = (i64)g.next() >> (g.next() % 64);
                                int_one<F, N>(m, random_raw<T>(g, v), (N)k);
                            }
                        }});
    };
    ints.template operator()<int8_t>();
    ints.template operator()<uint8_t>();
    ints.template operator()<int16_t>();
    ints.template operator()<uint16_t>();
    ints.template operator()<int32_t>();
    ints.template operator()<uint32_t>();
    ints.template operator()<int64_t>();
    ints.template operator()<uint64_t>();
    auto floats = [&]<typename N>()
    {
        jobs.push_back({std::string("float ") + M::name() + " " + nname<N>(), [](rng_t& g)
                        {
                            meter_t m(std::string("float ") + M::name() + " " + nname<N>());
                            auto v = interesting_of<F>();
                            if(sizeof(T) <= 2)
                                for(int a = 0; a < 65536; ++a)
                                    float_one<F, N>(m, (T)a, (N)((T)a) / (N)(1 << 3));
                            for(T a : v)
                                for(int k = -8; k <= 8; ++k)
                                {
                                    // near each structured value, at and around halves and quarters of the resolution
                                    long double x = std::ldexp((long double)a + k / 8.0L, -(int)M::frac);
                                    float_one<F, N>(m, a, (N)x);
                                }
                            for(u64 i = 0, n = reps(30000000, 1200000); i < n; ++i)
                                float_one<F, N>(m, random_raw<T>(g, v), random_float<N>(g, M::frac, M::bits));
                        }});
    };
    floats.template operator()<float>();
    floats.template operator()<double>();
    floats.template operator()<long double>();
    // every conversion is explicit
    jobs.push_back({std::string("explicit ") + M::name(), [](rng_t&)
                    {
                        meter_t m(std::string("explicit ") + M::name());
                        bool imp = std::is_convertible_v<int, F> || std::is_convertible_v<double, F> || std::is_convertible_v<F, int> || std::is_convertible_v<F, double> || std::is_convertible_v<F, bool>;
                        m.see(1);
                        if(imp)
                            fail(std::string("explicit ") + M::name(), "a conversion between the fixed number and a built-in number is implicit");
                    }});
}

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>() { add<F>(jobs); };
#if PART == 0
    flist<S32<1>, U32<31>, U32<1>, S32W<16>, U32<16, true>, S32<16>, S32<8>, S32<24>, U32<16>, S32<16, true>, S32<31>, S32<8, true>>::each(go);
#elif PART == 1
    flist<S64<1>, S64<62>, U64<63>, U64<1>, U64<16>, U64<32, true>, S64<16, true>, S64<32>, S64<16>, U64<32>, S64<48>, S64<32, true>, S64<63>>::each(go);
#elif PART == 2
    flist<S8<1>, S8<6>, U8<7>, U8<1>, S16<15>, S16<1>, U16<15>, S16W<8>, U8<4, true>, S16<8>, U16<8>, S8<3>, S8<7>, U8<4>, S16<4, true>, S8<4, true>, U16<8, true>>::each(go);
#endif
    run_jobs(std::move(jobs));
}
