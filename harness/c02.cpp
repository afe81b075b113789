#define VF_QUICK 6
// C02: arithmetic between a fixed number and a built-in integer is the arithmetic with the number the integer denotes.
#include "formats.hpp"
using namespace vf;

static i128 round_div(i128 n, i128 d)
{
    bool neg = (n < 0) != (d < 0);
    u128 un = n < 0 ? (u128)0 - (u128)n : (u128)n, ud = d < 0 ? (u128)0 - (u128)d : (u128)d;
    u128 q = un / ud, rem = un % ud;
    if(rem >= ud - rem)
        ++q;
    return neg ? -(i128)q : (i128)q;
}
template <typename N>
const char* iname()
{
    static const std::string s = std::string(std::is_signed_v<N> ? "i" : "u") + std::to_string(sizeof(N) * 8);
    return s.c_str();
}

template <typename F, typename N>
struct ops
{
    using M = fmt<F>;
    using T = typename M::store;
    meter_t m{std::string("mixed ") + M::name() + " with " + iname<N>()};

    void one(T a, N n)
    {
        const F fa = M::mk(a);
        const i128 A = (i128)a, B = (i128)n;
        const i128 NB = B * ((i128)1 << M::frac); // the raw value of n; at most 127 bits
        auto bad = [&](const char* op, i128 want, i128 got)
        {
            fail(std::string(op) + " " + M::name() + " " + iname<N>(), std::string(op) + ": raw " + str128(A) + " and integer " + str128(B) + " gave raw " + str128(got) + ", expected raw " + str128(want));
        };
        auto eq = [&](const char* op, F got, i128 want)
        {
            if((i128)got.internal_value() != want)
                bad(op, want, (i128)got.internal_value());
        };
        auto cmp = [&](const char* op, auto&& f, i128 want)
        {
            F x = M::mk(a);
            F& r = f(x);
            if((i128)x.internal_value() != want)
                bad(op, want, (i128)x.internal_value());
            if(&r != &x)
                fail(std::string(op) + " reference " + M::name(), "does not return its left operand");
        };
        const bool nfits = fits<T>(NB);
        at("mixed +-", M::name(), a, (i64)n);
        m.see(A, B);
        if(nfits && fits<T>(A + NB))
        {
            eq("fixed + int", fa + n, A + NB);
            eq("int + fixed", n + fa, A + NB);
            cmp("fixed += int", [&](F& x) -> F& { return x += n; }, A + NB);
        }
        if(nfits && fits<T>(A - NB))
        {
            eq("fixed - int", fa - n, A - NB);
            cmp("fixed -= int", [&](F& x) -> F& { return x -= n; }, A - NB);
        }
        if(nfits && fits<T>(NB - A))
            eq("int - fixed", n - fa, NB - A);
        at("mixed *", M::name(), a, (i64)n);
        if(M::bits < 64 || sizeof(N) < 8 || std::fabs((double)A) * std::fabs((double)B) < 1e37)
        {
            if(i128 w = A * B; fits<T>(w))
            {
                eq("fixed * int", fa * n, w);
                eq("int * fixed", n * fa, w);
                cmp("fixed *= int", [&](F& x) -> F& { return x *= n; }, w);
            }
        }
        if(n != 0 && fits<T>(A / B))
        {
            at("mixed /", M::name(), a, (i64)n);
            i128 w = A / B;
            eq("fixed / int", fa / n, w);
            cmp("fixed /= int", [&](F& x) -> F& { return x /= n; }, w);
            eq("divide(int)", fa.divide(n), w);
            cmp("divide_by(int)", [&](F& x) -> F& { return x.divide_by(n); }, w);
        }
        // a divisor beyond the range leaves the value as it is
        if(n != 0 && (M::is_signed || B > 0))
        {
            at("mixed %", M::name(), a, (i64)n);
            i128 w = A % NB;
            eq("fixed % int", fa % n, w);
            cmp("fixed %= int", [&](F& x) -> F& { return x %= n; }, w);
        }
        if(a != 0 && nfits)
        {
            at("int / fixed", M::name(), a, (i64)n);
            i128 num = (i128)((u128)NB << M::frac);
            bool ok = true;
            i128 w;
            if constexpr(M::bits == 64 && !M::is_signed)
            {
                u128 un = (u128)NB << M::frac, q = un / (u128)a, rem = un % (u128)a;
                if(M::rounding && rem >= (u128)a - rem)
                    ++q;
                ok = q <= (u128)std::numeric_limits<T>::max();
                w = (i128)q;
            }
            else
            {
                w = M::rounding ? round_div(num, A) : num / A;
                ok = fits<T>(w);
            }
            if(ok)
                eq("int / fixed", n / fa, w);
            eq("int % fixed", n % fa, NB % A);
        }
    }
};

template <typename N>
std::vector<N> ints()
{
    std::set<i128> s;
    auto add = [&](i128 v)
    {
        for(i128 k : {v - 1, v, v + 1, -v - 1, -v, -v + 1})
            if(fits<N>(k))
                s.insert(k);
    };
    for(int k = 0; k < 64; ++k)
        add((i128)1 << k);
    for(i128 k : {0, 3, 5, 6, 7, 10, 12, 100, 1000, 12345, 32766, 40000, 65535})
        add(k);
    add(lo_of<N>());
    add(hi_of<N>());
    return {s.begin(), s.end()};
}

template <typename F, typename N>
void add_job(std::vector<job_t>& jobs)
{
    jobs.push_back({std::string("mixed ") + fmt<F>::name() + " " + iname<N>(), [](rng_t& g)
                    {
                        using T = typename fmt<F>::store;
                        ops<F, N> o;
                        auto v = interesting_of<F>(opt.thorough);
                        auto ns = ints<N>();
                        for(T a : v)
                            for(N n : ns)
                                o.one(a, n);
                        if(sizeof(T) == 1)
                            for(int a = 0; a < 256; ++a)
                                for(int n = -300; n <= 300; ++n)
                                    o.one((T)a, (N)n);
                        u64 cnt = reps(20000000, 600000);
                        for(u64 i = 0; i < cnt; ++i)
                        {
                            T a = random_raw<T>(g, v);
                            u64 r = g.next();
                            N n;
                            switch(r & 3)
                            {
                            case 0: n = ns[(r >> 8) % ns.size()]; break;
                            case 1: n = (N)g.next(); break;
                            case 2: n = (N)((i64)(g.next() % 2001) - 1000); break;
                            default: n = (N)((i64)g.next() >> (r >> 8) % 63); break;
                            }
                            o.one(a, n);
                        }
                    }});
}
template <typename F>
void add_all(std::vector<job_t>& jobs)
{
    add_job<F, int8_t>(jobs);
    add_job<F, uint8_t>(jobs);
    add_job<F, int16_t>(jobs);
    add_job<F, uint16_t>(jobs);
    add_job<F, int32_t>(jobs);
    add_job<F, uint32_t>(jobs);
    add_job<F, int64_t>(jobs);
    add_job<F, uint64_t>(jobs);
    add_job<F, long long>(jobs);
}
void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>() { add_all<F>(jobs); };
#if PART == 0
    flist<S32<1>, S32<24>, U32<31>, U32<8>, S32<16>, S32<8>, U32<16>>::each(go);
#elif PART == 1
    flist<S64<62>, S64<1>, U64<63>, U64<16>, S64<32>, S64<16>, U64<32>>::each(go);
#elif PART == 2
    flist<S8<6>, S8<1>, U8<7>, U8<1>, S16<14>, S16<1>, U16<15>, S16W<8>, S16<8>, U16<8>, S8<3>, U8<4>>::each(go);
#elif PART == 3
    flist<S32W<16>, U32<16, true>, U64<32, true>, S16<8, true>, S8<4, true>, U8<4, true>, S32<31>, S64<63>, S32<16, true>, S64<32, true>, S32<30>>::each(go);
#endif
    run_jobs(std::move(jobs));
}
