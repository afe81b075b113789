// C01: exact fixed (+,-,*,/,%) fixed arithmetic, every spelling of it.
#include "formats.hpp"
using namespace vf;

// ---- the oracle: exact integer arithmetic on the raw values, written from the property
static i128 floor_div(i128 n, i128 d)
{
    i128 q = n / d, r = n % d;
    return (r != 0 && ((r < 0) != (d < 0))) ? q - 1 : q;
}
static i128 round_div(i128 n, i128 d)
{
    // nearest, ties away from zero
    bool neg = (n < 0) != (d < 0);
    u128 un = n < 0 ? (u128)0 - (u128)n : (u128)n, ud = d < 0 ? (u128)0 - (u128)d : (u128)d;
    u128 q = un / ud, rem = un % ud;
    if(rem >= ud - rem)
        ++q;
    return neg ? -(i128)q : (i128)q;
}

template <typename F>
struct ops
{
    using M = fmt<F>;
    using T = typename M::store;
    meter_t add{std::string("add ") + M::name()}, sub{std::string("sub ") + M::name()}, mul{std::string("mul ") + M::name()}, div{std::string("div ") + M::name()}, mod{std::string("mod ") + M::name()}, neg{std::string("neg ") + M::name()};

    static void bad(const char* op, T a, T b, i128 want, i128 got)
    {
        fail(std::string(op) + " " + M::name(), "raw " + str128((i128)a) + " " + op + " raw " + str128((i128)b) + " gave raw " + str128(got) + ", expected raw " + str128(want));
    }

    void one(T a, T b)
    {
        const F fa = M::mk(a), fb = M::mk(b);
        i128 A = (i128)a, B = (i128)b;
        auto chk = [&](const char* op, i128 want, F plain, auto&& compound)
        {
            if((i128)plain.internal_value() != want)
                bad(op, a, b, want, (i128)plain.internal_value());
            F x = M::mk(a);
            const F* ret = &compound(x);
            if((i128)x.internal_value() != want)
                bad((std::string(op) + "=").c_str(), a, b, want, (i128)x.internal_value());
            if(ret != &x)
                fail(std::string(op) + "= reference " + M::name(), "compound assignment does not return its left operand");
            if(fa.internal_value() != a || fb.internal_value() != b)
                fail(std::string(op) + " operands " + M::name(), "operand changed: raw " + str128(A) + ", " + str128(B));
        };
        if(i128 w = A + B; fits<T>(w))
        {
            at("operator+", M::name(), a, b);
            add.see(A, B);
            chk("+", w, fa + fb, [&](F& x) -> F& { return x += fb; });
        }
        if(i128 w = A - B; fits<T>(w))
        {
            at("operator-", M::name(), a, b);
            sub.see(A, B);
            chk("-", w, fa - fb, [&](F& x) -> F& { return x -= fb; });
        }
        {
            // the exact product of two 64 bit unsigned values needs 128 bits unsigned
            bool ok = true;
            i128 w = 0;
            if constexpr(M::bits == 64 && !M::is_signed)
            {
                u128 p = (u128)a * (u128)b, q = p >> M::frac;
                if(M::rounding && ((p >> (M::frac - 1)) & 1))
                    ++q;
                ok = q <= (u128)std::numeric_limits<T>::max();
                w = (i128)q;
            }
            else
            {
                i128 p = A * B;
                w = M::rounding ? round_div(p, (i128)1 << M::frac) : floor_div(p, (i128)1 << M::frac);
                ok = fits<T>(w);
            }
            if(ok)
            {
                at("operator*", M::name(), a, b);
                mul.see(A, B);
                chk("*", w, fa * fb, [&](F& x) -> F& { return x *= fb; });
            }
        }
        if(b != 0)
        {
            i128 w;
            bool ok;
            if constexpr(M::bits == 64 && !M::is_signed)
            {
                u128 n = (u128)a << M::frac, q = n / (u128)b, rem = n % (u128)b;
                if(M::rounding && rem >= (u128)b - rem)
                    ++q;
                ok = q <= (u128)std::numeric_limits<T>::max();
                w = (i128)q;
            }
            else
            {
                i128 n = (i128)((u128)A << M::frac);
                w = M::rounding ? round_div(n, B) : n / B;
                ok = fits<T>(w);
            }
            if(ok)
            {
                at("operator/", M::name(), a, b);
                div.see(A, B);
                chk("/", w, fa / fb, [&](F& x) -> F& { return x /= fb; });
                at("divide", M::name(), a, b);
                chk("divide", w, fa.divide(fb), [&](F& x) -> F& { return x.divide_by(fb); });
            }
            {
                at("operator%", M::name(), a, b);
                mod.see(A, B);
                chk("%", A % B, fa % fb, [&](F& x) -> F& { return x %= fb; });
            }
        }
        if(fits<T>(-A))
        {
            at("operator- unary", M::name(), a);
            neg.see(A);
            F n = -fa;
            if((i128)n.internal_value() != -A)
                bad("unary -", a, 0, -A, (i128)n.internal_value());
        }
        if constexpr(M::ibits > 0)
        {
            const i128 one_ = (i128)1 << M::frac;
            at("++ --", M::name(), a);
            if(fits<T>(A + one_))
            {
                F p = fa, q = fa;
                F r1 = ++p;
                F r2 = q++;
                if((i128)p.internal_value() != A + one_ || (i128)q.internal_value() != A + one_ || r1 != p || r2.internal_value() != a)
                    bad("++", a, 0, A + one_, (i128)p.internal_value());
            }
            if(fits<T>(A - one_))
            {
                F p = fa, q = fa;
                F r1 = --p;
                F r2 = q--;
                if((i128)p.internal_value() != A - one_ || (i128)q.internal_value() != A - one_ || r1 != p || r2.internal_value() != a)
                    bad("--", a, 0, A - one_, (i128)p.internal_value());
            }
        }
        // self operations alias both operands
        if(i128 w = A + A; fits<T>(w))
        {
            F x = M::mk(a);
            x += x;
            if((i128)x.internal_value() != w)
                bad("x+=x", a, a, w, (i128)x.internal_value());
        }
        if(a != 0 && fits<T>((i128)1 << M::frac))
        {
            F x = M::mk(a);
            x /= x;
            if((i128)x.internal_value() != ((i128)1 << M::frac))
                bad("x/=x", a, a, (i128)1 << M::frac, (i128)x.internal_value());
            F y = M::mk(a);
            y -= y;
            if(y.internal_value() != 0)
                bad("x-=x", a, a, 0, (i128)y.internal_value());
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    // every pair of raw values of the 8 bit formats
    [[maybe_unused]] auto ex = [&]<typename F>()
    {
        jobs.push_back({std::string("pairs8 ") + fmt<F>::name(), [](rng_t&)
                        {
                            using T = typename fmt<F>::store;
                            ops<F> o;
                            for(int a = 0; a < 256; ++a)
                                for(int b = 0; b < 256; ++b)
                                    o.one((T)a, (T)b);
                        }});
    };
#if PART == 0
    all8::each(ex);
    all8r::each(ex);
#endif
    // structured x structured, then random pairs
    const u64 nrand = reps(60000000, 6000000);
    const unsigned parts = opt.thorough ? 16 : 2;
    [[maybe_unused]] auto sp = [&]<typename F>()
    {
        for(unsigned p = 0; p < parts; ++p)
            jobs.push_back({std::string("pairs ") + fmt<F>::name() + " part " + std::to_string(p), [p, parts, nrand](rng_t& g)
                            {
                                using T = typename fmt<F>::store;
                                ops<F> o;
                                auto v = interesting_of<F>(opt.thorough);
                                for(size_t i = p; i < v.size(); i += parts)
                                    for(T b : v)
                                        o.one(v[i], b);
                                for(u64 i = 0; i < nrand / parts; ++i)
                                {
                                    T a = random_raw<T>(g, v), b = random_raw<T>(g, v);
                                    if((i & 15) == 0)
                                    {
                                        // products and quotients that land on exact or half ulp boundaries
                                        unsigned k = g.below(fmt<F>::frac + 1);
                                        a = (T)((a >> k) << k);
                                        b = (T)((b >> (fmt<F>::frac - k)) << (fmt<F>::frac - k));
                                        if(g.next() & 1)
                                            b = (T)(b | ((u64)1 << (fmt<F>::frac - k > 0 ? fmt<F>::frac - k - 1 : 0)));
                                    }
                                    o.one(a, b);
                                }
                            }});
    };
#if PART == 0
    all16::each(sp);
#elif PART == 1
    all32a::each(sp);
#elif PART == 2
    all32b::each(sp);
#elif PART == 3
    all64a::each(sp);
#elif PART == 4
    all64b::each(sp);
#endif
    run_jobs(std::move(jobs));
}
