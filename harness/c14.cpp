#define VF_QUICK 4
// C14: errors are signalled by the documented exceptions, and by nothing else.
#include "formats.hpp"
#include <stdexcept>
using namespace vf;

enum outcome
{
    value,
    div_zero,
    domain,
    other
};
static const char* oname(int o) { return o == value ? "a value" : o == div_zero ? "divide_by_zero" : o == domain ? "domain_error" : "another exception"; }

template <typename Fn>
outcome run_it(Fn&& fn)
{
    try
    {
        fn();
        return value;
    }
    catch(const eirin::divide_by_zero& e)
    {
        // it is a domain_error, a logic_error and has a message
        const std::domain_error* d = &e;
        return d->what() && *d->what() ? div_zero : other;
    }
    catch(const std::domain_error& e)
    {
        return e.what() && *e.what() ? domain : other;
    }
    catch(...)
    {
        return other;
    }
}

template <typename F>
struct err
{
    using M = fmt<F>;
    using T = typename M::store;
    static constexpr i128 one_ = (i128)1 << M::frac;
    std::string nm = M::name();
    meter_t md{"divide " + nm}, ml{"log " + nm}, ma{"asin acos " + nm}, mt{"tan " + nm}, mp{"pow " + nm}, mq{"total functions " + nm};

    void expect(meter_t& m, const char* what, T a, i128 b, outcome got, outcome want)
    {
        m.see((i128)a, b);
        if(got != want)
            fail(std::string(what) + " " + nm, "raw " + str128((i128)a) + " and " + str128(b) + ": " + oname(got) + ", expected " + oname(want));
    }

    static bool quotient(i128 a, i128 b, i128& q)
    {
        if(M::bits == 64 && !M::is_signed && a >> 62) // the product has to fit 128 bits
            return false;
        i128 n = a * one_;
        bool neg = (n < 0) != (b < 0);
        u128 un = n < 0 ? (u128)0 - (u128)n : (u128)n, ub = b < 0 ? (u128)0 - (u128)b : (u128)b;
        u128 w = un / ub;
        if(M::rounding && un % ub >= ub - un % ub)
            ++w;
        q = neg ? -(i128)w : (i128)w;
        return fits<T>(q);
    }

    void division(T a, T b)
    {
        const F x = M::mk(a), y = M::mk(b);
        i128 q = 0;
        if(b != 0 && !quotient((i128)a, (i128)b, q))
            return;
        const outcome want = b == 0 ? div_zero : value;
        F r = M::mk(77), z = x;
        at("divide", M::name(), (i64)a, (i64)b);
        expect(md, "divide", a, (i128)b, run_it([&] { r = x.divide(y); }), want);
        at("divide_by", M::name(), (i64)a, (i64)b);
        F* ret = nullptr;
        expect(md, "divide_by", a, (i128)b, run_it([&] { ret = &z.divide_by(y); }), want);
        if(b == 0)
        {
            if(z.internal_value() != a || r.internal_value() != 77)
                fail("operand after divide_by_zero " + nm, "raw " + str128((i128)a) + " became raw " + str128((i128)z.internal_value()));
        }
        else if((i128)r.internal_value() != q || (i128)z.internal_value() != q || ret != &z)
            fail("checked quotient " + nm, "raw " + str128((i128)a) + " by raw " + str128((i128)b) + ": raw " + str128((i128)r.internal_value()) + " / " + str128((i128)z.internal_value()) + ", expected " + str128(q));
    }
    template <typename N>
    void division_int(T a, N n)
    {
        const i128 B = (i128)n;
        i128 q = B ? (i128)a / B : 0;
        if(!fits<T>(q))
            return;
        const F x = M::mk(a);
        const outcome want = n == 0 ? div_zero : value;
        F r = M::mk(77), z = x;
        at("divide integer", M::name(), (i64)a, (i64)n);
        expect(md, "divide integer", a, B, run_it([&] { r = x.divide(n); }), want);
        expect(md, "divide_by integer", a, B, run_it([&] { z.divide_by(n); }), want);
        if(n == 0)
        {
            if(z.internal_value() != a)
                fail("operand after divide_by_zero " + nm, "raw " + str128((i128)a));
        }
        else if((i128)r.internal_value() != q || (i128)z.internal_value() != q)
            fail("checked integer quotient " + nm, "raw " + str128((i128)a) + " by " + str128(B) + ": raw " + str128((i128)r.internal_value()) + ", expected " + str128(q));
    }
    // integers of which some bits are zero: none of them is a zero divisor
    template <typename N>
    void wide(T a)
    {
        for(int k = 0; k < (int)sizeof(N) * 8; ++k)
            for(i128 n : {(i128)1 << k, ((i128)1 << k) + 1, ((i128)3 << k), -((i128)1 << k)})
                if(fits<N>(n))
                    division_int<N>(a, (N)n);
        division_int<N>(a, std::numeric_limits<N>::max());
        division_int<N>(a, std::numeric_limits<N>::min());
    }
    void functions(T a)
    {
        if constexpr(M::is_signed)
            functions_signed(a);
        else
            functions_unsigned(a);
    }
    void functions_unsigned(T a)
    {
        const F x = M::mk(a);
        if(a != 0 && (i128)a < one_) // the logarithm is negative
            return;
        at("log2", M::name(), (i64)a);
        expect(ml, "log2", a, 0, run_it([&] { (void)eirin::log2(x); }), a == 0 ? domain : value);
        at("log", M::name(), (i64)a);
        expect(ml, "log", a, 0, run_it([&] { (void)eirin::log(x); }), a == 0 ? domain : value);
        at("log10", M::name(), (i64)a);
        expect(ml, "log10", a, 0, run_it([&] { (void)eirin::log10(x); }), a == 0 ? domain : value);
        expect(mq, "total functions", a, 0, run_it([&]
                                                   {
                                                       volatile T sink;
                                                       sink = eirin::sqrt(x).internal_value();
                                                       sink = eirin::abs(x).internal_value();
                                                       sink = eirin::ceil(x).internal_value();
                                                       (void)sink;
                                                   }),
               value);
    }
    void functions_signed(T a)
    {
        const F x = M::mk(a);
        const i128 A = (i128)a;
        at("log2", M::name(), (i64)a);
        expect(ml, "log2", a, 0, run_it([&] { (void)eirin::log2(x); }), A <= 0 ? domain : value);
        at("log", M::name(), (i64)a);
        expect(ml, "log", a, 0, run_it([&] { (void)eirin::log(x); }), A <= 0 ? domain : value);
        at("log10", M::name(), (i64)a);
        expect(ml, "log10", a, 0, run_it([&] { (void)eirin::log10(x); }), A <= 0 ? domain : value);
        const bool out = A > one_ || A < -one_;
        at("asin", M::name(), (i64)a);
        expect(ma, "asin", a, 0, run_it([&] { (void)eirin::asin(x); }), out ? domain : value);
        at("acos", M::name(), (i64)a);
        expect(ma, "acos", a, 0, run_it([&] { (void)eirin::acos(x); }), out ? domain : value);
        // tan: an error exactly where the cosine is not distinguishable from zero
        at("tan", M::name(), (i64)a);
        const i128 c = (i128)eirin::cos(x).internal_value();
        expect(mt, "tan", a, c, run_it([&] { (void)eirin::tan(x); }), c <= 1 && c >= -1 ? domain : value);
        // functions which are defined everywhere
        at("total functions", M::name(), (i64)a);
        expect(mq, "total functions", a, 0, run_it([&]
                                                   {
                                                       volatile T sink;
                                                       sink = eirin::sqrt(x).internal_value();
                                                       sink = eirin::cbrt(x).internal_value();
                                                       sink = eirin::sin(x).internal_value();
                                                       sink = eirin::cos(x).internal_value();
                                                       sink = eirin::atan(x).internal_value();
                                                       sink = eirin::abs(x).internal_value();
                                                       sink = eirin::ceil(x).internal_value();
                                                       (void)sink;
                                                   }),
               value);
        if(A < 0)
        {
            const i128 q = (i128)eirin::sqrt(x).internal_value();
            if(q != -one_)
                fail("sqrt of negative " + nm, "raw " + str128(A) + ": raw " + str128(q));
        }
    }
    void powers(T a, T b)
    {
        if constexpr(M::is_signed)
            powers_signed(a, b);
    }
    void powers_signed(T a, T b)
    {
        const F x = M::mk(a), y = M::mk(b);
        const i128 A = (i128)a, B = (i128)b;
        const bool whole = B % one_ == 0;
        // representable results only: the point here is the signal
        long double u = std::ldexp(1.0L, -(int)M::frac), ax = std::fabs((long double)a * u), ey = (long double)b * u, top = std::ldexp(0.45L, M::ibits);
        if(a != 0 && (!(std::pow(ax, ey) < top) || !(std::pow(ax, std::trunc(ey)) < top) || !(1 / ax < top) || std::fabs(ey) > 64))
            return;
        at("pow", M::name(), (i64)a, (i64)b);
        // zero has the documented results, a negative base has no real power with a fraction
        const outcome want = A < 0 && !whole ? domain : value;
        expect(mp, "pow", a, B, run_it([&] { (void)eirin::pow(x, y); }), want);
        if(x.internal_value() != a || y.internal_value() != b)
            fail("pow operands " + nm, "changed");
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        for(T a : v)
        {
            functions(a);
            division(a, 0);
            for(T b : v)
            {
                division(a, b);
                powers(a, b);
            }
            wide<int8_t>(a);
            wide<uint8_t>(a);
            wide<short>(a);
            wide<unsigned short>(a);
            wide<int>(a);
            wide<unsigned>(a);
            wide<long long>(a);
            wide<unsigned long long>(a);
            for(int n = -5; n <= 5; ++n)
            {
                division_int<int>(a, n);
                division_int<long long>(a, n);
                division_int<int8_t>(a, (int8_t)n);
                division_int<short>(a, (short)n);
                if(n >= 0)
                {
                    division_int<unsigned>(a, (unsigned)n);
                    division_int<unsigned long long>(a, (unsigned long long)n);
                    division_int<uint8_t>(a, (uint8_t)n);
                    division_int<bool>(a, n == 1);
                }
            }
        }
        // around the poles of the tangent
        for(int k = -300; k <= 300; ++k)
            for(int d = -8; d <= 8; ++d)
            {
                long double p = std::floor(std::ldexp(1.57079632679489661923132169163975144L * k, (int)M::frac)) + d;
                if(std::fabs(p) < 9.2e18L && fits<T>((i128)p))
                    functions((T)(i128)p);
            }
        for(i64 d = -300; d <= 300; ++d)
            for(i128 c : {(i128)0, one_, -one_})
                if(fits<T>(c + d))
                    functions((T)(c + d));
        for(u64 i = 0, n = reps(3000000, 60000); i < n; ++i)
        {
            T a = random_raw<T>(g, v), b = random_raw<T>(g, v);
            functions(a);
            division(a, b);
            powers(a, b);
            powers((T)(a / 4096), (T)((b / one_) * one_ % (one_ * 16)));
            division_int<int>(a, (int)b);
            division_int<long long>(a, (long long)b >> (g.next() % 64));
            division_int<unsigned long long>(a, (unsigned long long)b >> (g.next() % 64));
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("errors ") + fmt<F>::name(), [](rng_t& g)
                        {
                            err<F> d;
                            d.run(g);
                        }});
    };
    flist<S32<8>, S32<24>, S32<28>, S64<48>, S16<12>, S32W<16>, U16<8>, U32<16, true>, U64<16>, S32<16>, S32<12>, S32<20>, S32<16, true>, S64<32>, S64<24>, S64<16>, S64<32, true>, U32<16>, U64<32>, S16<8>, S8<4>, U8<4>>::each(go);
    run_jobs(std::move(jobs));
}
