#ifndef PART
#    define PART 0
#endif
#ifndef SEED
#    define SEED 1
#endif
#ifndef COUNT
#    define COUNT 120
#endif
// C32: an expression evaluated by the compiler gives what it gives at run time.  The compiler's constant evaluator is the
// monitor for undefined behaviour here: an evaluation that has any does not compile.
#include "formats.hpp"
#include <eirin/ext/cordic.hpp>
#include <eirin/detail/util.hpp>
using namespace vf;

struct crng
{
    u64 s;
    constexpr explicit crng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567887654321ull) {}
    constexpr u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

template <typename F>
struct in_t
{
    using T = typename fmt<F>::store;
    T a[COUNT]{}, b[COUNT]{};
};
template <typename F>
constexpr in_t<F> inputs(u64 salt)
{
    using M = fmt<F>;
    using T = typename M::store;
    in_t<F> r;
    crng g(SEED * 7919ull + salt * 31 + M::frac);
    const i128 one = (i128)1 << M::frac;
    for(int i = 0; i < COUNT; ++i)
        for(int k = 0; k < 2; ++k)
        {
            u64 w = g.next(), c = g.next();
            i128 v = 0;
            switch(c % 6)
            {
            case 0: v = (i128)(T)w; break;
            case 1: v = one * (i128)((i64)(w % 41) - 20); break;
            case 2: v = one / 2 * (i128)((i64)(w % 41) - 20) + (i128)(c >> 32) % 3 - 1; break;
            case 3: v = (i128)((i64)w >> (1 + (c >> 8) % 62)); break;
            case 4: v = (i128)((i64)(w % (u64)(2 * one + 1))) - one; break;
            default: v = (i128)1 << ((c >> 8) % (M::bits - 1)); v += (i128)(w % 3) - 1; if(w & 8) v = -v;
            }
            if(!fits<T>(v))
                v = (i128)(T)w;
            (k ? r.b : r.a)[i] = (T)v;
        }
    return r;
}
static constexpr u64 none = 0xDEADBEEFCAFEF00Dull; // outside of the operation's domain
template <typename F>
constexpr u64 raw(F x) { return (u64)(i64)x.internal_value(); }

// a long double would not be portable in a constant: plain integer tests of the domains
// the reader of wide literals is internal, so it is only watched while it is there
namespace eirin::detail
{
struct no_reader;
void parse(no_reader*);
} // namespace eirin::detail
template <typename F>
constexpr unsigned long long wide_numeral(const wchar_t* text, std::size_t n, F& out)
{
    if constexpr(requires { eirin::detail::parse(text, n, out); })
        return eirin::detail::parse(text, n, out);
    else
        return 0;
}
#define OP(NAME, ...)                                                     \
    struct NAME                                                           \
    {                                                                     \
        template <typename F>                                             \
        static constexpr u64 f(typename F::value_type a, typename F::value_type b) \
        {                                                                 \
            using M = fmt<F>;                                             \
            [[maybe_unused]] constexpr i128 one = (i128)1 << M::frac;     \
            [[maybe_unused]] F x = F::from_internal_value(a), y = F::from_internal_value(b); \
            [[maybe_unused]] i128 A = (i128)a, B = (i128)b;               \
            using T [[maybe_unused]] = typename F::value_type;            \
            __VA_ARGS__                                                   \
        }                                                                 \
    };
OP(add, if(!fits<T>(A + B)) return none; return raw(x + y);)
OP(sub, if(!fits<T>(A - B)) return none; return raw(x - y);)
OP(neg, if(!M::is_signed || A == lo_of<T>()) return none; return raw(-x);)
OP(mul, if(M::bits == 64 && (A > ((i128)1 << 46) || A < -((i128)1 << 46) || B > ((i128)1 << 46) || B < -((i128)1 << 46))) return none; if(!fits<T>(((A * B) >> M::frac) + 1)) return none; return raw(x * y);)
OP(divi, if(B == 0 || (M::bits == 64 && A > ((i128)1 << 62))) return none; if(!fits<T>(A * one / B + 1) || !fits<T>(A * one / B - 1)) return none; return raw(x / y) ^ (raw(x.divide(y)) << 1);)
OP(mod, if(B == 0) return none; return raw(x % y);)
OP(compare, return (u64)(x < y) + 2 * (x <= y) + 4 * (x == y) + 8 * x.nearly_eq(y) + 16 * x.nearly_gt(y) + 32 * x.nearly_lt(y) + 64 * (x != y) + 128 * (x >= y);)
OP(minmax, return raw(eirin::min(x, y)) * 3 + raw(eirin::max(x, y));)
OP(rnd, if(A > hi_of<T>() - one || A < lo_of<T>() + one) return none; u64 h = raw(eirin::floor(x)); h = h * 31 + raw(eirin::ceil(x)); h = h * 31 + raw(eirin::trunc(x)); return h * 31 + raw(eirin::round(x));)
OP(parts, return (u64)x.integral_part() * 31 + (u64)x.fractional_part() + (u64)signbit(x);)
OP(to_int, return (u64)(long long)x * 31 + (u64)(int)x;)
OP(to_double, double d = (double)x; return d < 0 ? (u64)(-d * 16) : (u64)(d * 16) % 1000003;)
OP(from_double, return raw(F((double)(i64)(A / 4) / (double)one)) + raw(F((float)(B % 64) / 8.0f)) * 3;)
OP(from_int, int n = (int)(B % 8); if(n < 0 && !M::is_signed) n = -n; return raw(F(n)) + raw(F((long long)n)) * 3;)
OP(root, return raw(eirin::sqrt(x));)
OP(cube, if(!M::is_signed) return none; else return raw(eirin::cbrt(x));)
OP(sine, if constexpr(!M::is_signed) return none; else return raw(eirin::sin(x)) * 31 + raw(eirin::cos(x));)
OP(tangent, if constexpr(!M::is_signed) return none; else { i128 c = (i128)eirin::cos(x).internal_value(); if(c < 16 && c > -16) return none; return raw(eirin::tan(x)); })
OP(arc, if constexpr(!M::is_signed) return none; else return raw(eirin::atan(x));)
OP(arcsin, if constexpr(!M::is_signed) return none; else { F z = F::from_internal_value((T)(A % (one + 1))); return raw(eirin::asin(z)) * 31 + raw(eirin::acos(z)); })
OP(logs, if constexpr(!M::is_signed) return none; else { if(A <= 0) return none; return raw(eirin::log2(x)) * 31 + raw(eirin::log(x)) * 7 + raw(eirin::log10(x)); })
OP(expo, if constexpr(!M::is_signed) return none; else return raw(eirin::exp(F::from_internal_value((T)(A % (5 * one)))));)
OP(power, if constexpr(!M::is_signed) return none; else { A = A % (4 * one); A = A < 0 ? -A : A; if(A < one / 4) return none; return raw(eirin::pow(F::from_internal_value((T)A), F::from_internal_value((T)(B % (2 * one))))); })
OP(ipower, A = A % (4 * one); if(A < one / 4 && A > -one / 4) return none; return raw(eirin::pow(F::from_internal_value((T)A), (int)(B & 3))) + (M::is_signed ? raw(eirin::pow(F::from_internal_value((T)A), -(int)(B & 1))) : 0);)
OP(angle, return raw(eirin::radians(x)) + raw(eirin::degrees(F::from_internal_value((T)(A % (one)))));)
OP(absolute, if constexpr(!M::is_signed) return none; else return raw(eirin::abs(x));)
OP(fraction, if(B == 0) return none; F ip = F::from_internal_value(0); F fr = eirin::modf(x, ip); return raw(fr) * 31 + raw(ip);)
OP(widen, using W = eirin::fixed_num<std::conditional_t<M::is_signed, int64_t, uint64_t>, std::conditional_t<M::is_signed, __int128, unsigned __int128>, 32, false>; if(A > ((i128)1 << 30) || A < -((i128)1 << 30)) return none; return (u64)W(x).internal_value();)
OP(print, char buf[700] = {}; char* e = F::copy_as_chars_to(x, (char*)buf, (B & 1) ? 10 : 16, (B & 2) != 0); u64 h = (u64)(e - buf); for(char* p = buf; p != e; ++p) h = h * 131 + (unsigned char)*p; return h;)
OP(parse, char buf[32] = {}; int n = 0; u64 w = (u64)(i64)a ^ ((u64)(i64)b * 0x9E3779B97F4A7C15ull); int len = 1 + (int)(w % 12); if(w & 16) buf[n++] = '-'; for(int i = 0; i < len; ++i) { w = w * 6364136223846793005ull + 1442695040888963407ull; buf[n++] = (w >> 60) == 1 && i > 1 ? 'x' : i == len / 2 ? '.' : (char)('0' + (w >> 33) % 10); } F out = F::from_internal_value(3); bool ok = eirin::fixed_from_cstring(buf, (size_t)n, out); return ok ? raw(out) : none + 1;)
OP(assigns, if(A > hi_of<T>() / 8 || A < lo_of<T>() / 8 || M::ibits < 5) return none; F z = x; z += x; z -= F::from_internal_value((T)(A / 2)); z *= F(2); z /= F(2); z += 1; z %= F(3); z *= 2; z /= 2; return raw(z);)

OP(hyp, A = A % (one * 3); B = B % (one * 3); x = F::from_internal_value((T)A); y = F::from_internal_value((T)B); if(M::ibits < 6) return none; return raw(eirin::hypot(x, y)) * 31 + raw(eirin::hypot(x, y, F(1)));)
OP(fmodulo, if(B == 0 || A < 0 || B < 0 || M::ibits < 5) return none; if(A * one / B > ((i128)1 << (M::bits - 3)) || A > hi_of<T>() / 4) return none; return raw(eirin::fmod(x, y));)
OP(mixed, if(A > hi_of<T>() / 8 || A < lo_of<T>() / 8 || M::ibits < 5) return none; int n = 1 + (int)(B & 3); u64 h = raw(x + n); h = h * 31 + raw(n + x); h = h * 31 + raw(x * n); h = h * 31 + raw(n * x); h = h * 31 + raw(x / n); if(M::is_signed) { h = h * 31 + raw(x - n); h = h * 31 + raw(n - x); } return h;)
OP(cordics, if constexpr(M::bits == 32 && M::frac == 16 && M::is_signed && !M::rounding) return raw(eirin::cordic_sine(x)); else if constexpr(M::bits == 64 && M::frac == 32 && M::is_signed && !M::rounding) return raw(eirin::cordic_sine(x)); else return none;)
OP(limits, using L = std::numeric_limits<F>; return raw(L::max()) + raw(L::min()) * 3 + raw(L::lowest()) * 5 + raw(L::epsilon()) * 7 + (u64)L::digits * 11 + (u64)L::digits10 * 13;)
OP(constants, if constexpr(M::bits < 32 || M::ibits < 5) return none; else { namespace n = eirin::numbers; return raw(n::e_v<F>()) + raw(n::pi_v<F>()) * 3 + raw(n::ln2_v<F>()) * 5 + raw(n::sqrt2_v<F>()) * 7 + raw(n::egamma_v<F>()) * 11 + raw(n::phi_v<F>()) * 13; })
OP(eval, double d = (double)(i64)(A % 4096) / 64.0; return (u64)eirin::util::eval_value<int64_t>(d, (int)((u64)B % 40));)
OP(literal, char buf[32] = {}; int n = 0; u64 w = (u64)(i64)a * 0x9E3779B97F4A7C15ull ^ (u64)(i64)b; int len = 1 + (int)(w % 11); if(w & 16) buf[n++] = '-'; for(int i = 0; i < len; ++i) { w = w * 6364136223846793005ull + 1442695040888963407ull; buf[n++] = i == len / 2 ? '.' : (char)('0' + (w >> 33) % 10); } return raw(eirin::literals::operator""_f32(buf, (size_t)n)) * 31 + raw(eirin::literals::operator""_f64(buf, (size_t)n)) + raw(eirin::literals::operator""_f32((unsigned long long)(w >> 50))) + raw(eirin::literals::operator""_f32((long double)(i64)(w >> 44) / 4096));)

OP(tolerances, u64 h = (u64)x.nearly_ne(y) + 2 * x.nearly_gt_eq(y) + 4 * x.nearly_lt_eq(y); h += 8 * (x <=> y == 0) + 16 * (x <=> y < 0); return h * 31 + raw(F::epsilon()) * 7 + raw(F::nearly_compare_epsilon());)
OP(checked, if(B == 0 || (M::bits == 64 && A > ((i128)1 << 62)) || !fits<T>(A * one / B + 1) || !fits<T>(A * one / B - 1)) return none; F z = x; z.divide_by(y); u64 h = raw(z); z = x; z.divide_by(3); h = h * 31 + raw(z); z = x; z /= 7u; h = h * 31 + raw(z); z = x; h = h * 31 + raw(z.divide(5ull)); return h * 31 + raw(x.divide((short)9));)
OP(convert, using A1 = eirin::fixed_num<T, typename F::intermediate_type, 5, false>; using A2 = eirin::fixed_num<T, typename F::intermediate_type, 7, true>; if(M::frac < 8) return none; u64 h = (u64)A1(x).internal_value(); h = h * 31 + (u64)A2(x).internal_value(); return h * 31 + raw(F(A1(x)));)
OP(pieces, F z(x); F c(0); c = z; return (u64)c.raw_integral_part() * 31 + (u64)c.fractional_part() * 7 + (u64)(bool)x + (u64)(unsigned char)(long long)x * 3 + (u64)F::precision + (u64)(i64)c.signbit_mask();)
OP(angles, if constexpr(M::bits == 64 && M::frac == 32 && M::is_signed && !M::rounding) return raw(eirin::util::lut::angels_lut<16>()[(size_t)(B & 15)]); else return none;)
OP(wide, wchar_t buf[32] = {}; int n = 0; u64 w = (u64)(i64)b * 0x9E3779B97F4A7C15ull ^ (u64)(i64)a; int len = 1 + (int)(w % 8); if(w & 16) buf[n++] = L'-'; for(int i = 0; i < len; ++i) { w = w * 6364136223846793005ull + 1442695040888963407ull; buf[n++] = i == len / 2 ? L'.' : (wchar_t)(L'0' + (w >> 33) % 10); } F out = F::from_internal_value(3); return wide_numeral((const wchar_t*)buf, (size_t)n, out) * 3 + raw(out);)

// tables built by the compiler
template <typename F, typename Op>
constexpr std::array<u64, COUNT> table()
{
    constexpr in_t<F> in = inputs<F>(1);
    std::array<u64, COUNT> r{};
    for(int i = 0; i < COUNT; ++i)
        r[i] = Op::template f<F>(in.a[i], in.b[i]);
    return r;
}
template <typename F, typename Op>
void check(const char* name)
{
    using M = fmt<F>;
    using T = typename M::store;
    static constexpr std::array<u64, COUNT> ct = table<F, Op>();
    static const in_t<F> in = inputs<F>(1);
    meter_t m(std::string(name) + " " + M::name());
    for(int i = 0; i < COUNT; ++i)
    {
        volatile T a = in.a[i], b = in.b[i]; // hidden from the optimiser
        at(name, M::name(), (i64)a, (i64)b);
        const u64 rt = Op::template f<F>(a, b);
        if(ct[i] == none && rt == none)
            continue;
        m.see((i128)(i64)a, (i128)(i64)b);
        if(rt != ct[i])
            fail(std::string("compile time ") + name + " " + M::name(), "raw " + str128((i128)(T)a) + " and raw " + str128((i128)(T)b) + strf(": %016llx by the compiler, %016llx at run time", (unsigned long long)ct[i], (unsigned long long)rt));
    }
}

template <typename F>
void all()
{
#define C(OPN) check<F, OPN>(#OPN)
    C(add); C(sub); C(neg); C(mul); C(divi); C(mod); C(compare); C(minmax); C(parts); C(to_int); C(to_double); C(from_double); C(from_int); C(print); C(parse); C(assigns); C(rnd); C(absolute); C(fraction); C(widen); C(hyp); C(fmodulo); C(mixed); C(cordics); C(limits); C(constants); C(eval); C(literal); C(tolerances); C(checked); C(convert); C(pieces); C(angles); C(wide);
    if constexpr(fmt<F>::bits >= 32 && fmt<F>::ibits >= 8)
    {
        C(root); C(cube); C(sine); C(tangent); C(arc); C(arcsin); C(logs); C(expo); C(power); C(ipower); C(angle);
    }
}

void workload()
{
    section("constants", [](rng_t&)
            {
#if PART == 0
                all<S32<16>>();
                all<S16<8>>();
#elif PART == 1
                all<S64<32>>();
#elif PART == 2
                all<S32<12>>();
                all<U32<16>>();
#elif PART == 3
                all<S64<24>>();
                all<S32<16, true>>();
#endif
            });
}
