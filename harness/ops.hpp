// A catalogue of evaluations of the library: evaluation number i of an operation draws its own inputs from (seed, operation, i),
// stays inside the operation's domain, and folds every result into one word.  Used by the determinism and the thread monitors.
#pragma once
#include "formats.hpp"
#include "text.hpp"
#include <eirin/ext/cordic.hpp>
#include <eirin/detail/util.hpp>
#include <eirin/io/format.hpp>
#include <random>
#include <sstream>

namespace vf
{
struct op_t
{
    std::string name;
    std::function<u64(rng_t&)> eval;
    bool fp = false; // uses floating point: its last bit follows the rounding mode
};

struct fold_t
{
    u64 h = 1469598103934665603ull;
    void add(u64 v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; }
    void add(const std::string& s)
    {
        for(unsigned char c : s)
            add((u64)c);
        add(s.size());
    }
    template <typename T, typename I, unsigned f, bool r>
    void add(const eirin::fixed_num<T, I, f, r>& x) { add((u64)(i64)x.internal_value()); }
};

inline const std::vector<i64> text_base = interesting<i64>(32);

template <typename F>
void format_ops(std::vector<op_t>& v)
{
    using M = fmt<F>;
    using T = typename M::store;
    static const auto base = interesting_of<F>(false);
    static constexpr i128 one = (i128)1 << M::frac;
    const std::string n = std::string(" ") + M::name();
    auto pick = [](rng_t& g) { return random_raw<T>(g, base); };

    v.push_back({"arithmetic" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     T a = pick(g), b = pick(g);
                     at("arithmetic", M::name(), (i64)a, (i64)b);
                     F x = M::mk(a), y = M::mk(b);
                     const i128 A = (i128)a, B = (i128)b;
                     if(fits<T>(A + B))
                     {
                         h.add(x + y);
                         F z = x;
                         z += y;
                         h.add(z);
                     }
                     if(fits<T>(A - B))
                         h.add(x - y);
                     const long double pr = (long double)A * (long double)B / (long double)one, top = (long double)hi_of<T>() * 0.999L;
                     if(std::fabs(pr) < top && (M::is_signed || M::bits < 64 || (A < ((i128)1 << 62) && B < ((i128)1 << 62))))
                     {
                         h.add(x * y);
                         F z = x;
                         z *= y;
                         h.add(z);
                     }
                     if(b != 0 && std::fabs((long double)A / (long double)B * (long double)one) < top)
                     {
                         h.add(x / y);
                         h.add(x.divide(y));
                     }
                     if(b != 0 && !(A == lo_of<T>() && B == -1))
                         h.add(x % y);
                     h.add((u64)(x < y) + 2 * (x <= y) + 4 * (x == y) + 8 * x.nearly_eq(y) + 16 * x.nearly_gt(y));
                     h.add(eirin::min(x, y));
                     h.add(eirin::max(x, y));
                     h.add(eirin::fixed_hash<F>()(x));
                     int k = 1 + (int)g.below(100);
                     h.add(x.divide(k));
                     return h.h;
                 }});
    v.push_back({"parts" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     T a = pick(g);
                     at("parts", M::name(), (i64)a);
                     if((i128)a == lo_of<T>() && M::is_signed)
                         return (u64)0;
                     F x = M::mk(a);
                     h.add((u64)x.integral_part());
                     h.add((u64)x.fractional_part());
                     h.add((u64) static_cast<T>(x));
                     h.add(eirin::floor(x));
                     if((i128)a < hi_of<T>() - one)
                     {
                         h.add(eirin::ceil(x));
                         h.add(eirin::round(x));
                     }
                     h.add(eirin::trunc(x));
                     if constexpr(M::is_signed)
                         h.add(eirin::abs(x));
                     h.add((u64)signbit(x));
                     return h.h;
                 }});
    v.push_back({"to float" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     T a = pick(g);
                     at("to float", M::name(), (i64)a);
                     F x = M::mk(a);
                     double d = (double)x;
                     float f = (float)x;
                     u64 w = 0;
                     std::memcpy(&w, &d, 8);
                     h.add(w);
                     w = 0;
                     std::memcpy(&w, &f, 4);
                     h.add(w);
                     return h.h;
                 },
                 true});
    if constexpr(!M::rounding)
        v.push_back({"from float" + n, [=](rng_t& g)
                     {
                         fold_t h;
                         T a = pick(g);
                         const i64 tail = (i64)(g.next() >> 11);
                         double d = std::ldexp((double)(i64)(a / 2), -(int)M::frac) + std::ldexp((double)tail, -53 - (int)g.below(20));
                         if constexpr(!M::is_signed)
                             d = std::ldexp((double)(u64)(a / 2), -(int)M::frac);
                         at("from float", M::name(), (i64)a);
                         h.add(F(d));
                         h.add(F((float)(d / 2)));
                         return h.h;
                     },
                     true});
    v.push_back({"print" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     T a = pick(g);
                     at("print", M::name(), (i64)a);
                     F x = M::mk(a);
                     std::ostringstream os;
                     switch(g.below(3))
                     {
                     case 0: os << std::hex << x; break;
                     case 1: os << std::oct << x; break;
                     default: os << x;
                     }
                     h.add(os.str());
#ifdef EIRIN_HAS_LIB_FORMAT
                     h.add(std::format("{:>24.9f}|{}|{:+#x}|{:g}", x, x, x, x));
#endif
                     return h.h;
                 }});
#ifdef EIRIN_HAS_LIB_FORMAT
    v.push_back({"format specs" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     T a = pick(g);
                     at("format specs", M::name(), (i64)a);
                     F x = M::mk(a);
                     std::string spec = "{:";
                     if(g.chance(1, 2))
                     {
                         if(g.chance(1, 2))
                             spec += "*_0x -"[g.below(6)];
                         spec += "<>^"[g.below(3)];
                     }
                     if(g.chance(1, 2))
                         spec += "+- "[g.below(3)];
                     if(g.chance(1, 3))
                         spec += '#';
                     if(g.chance(1, 3))
                         spec += '0';
                     if(g.chance(1, 2))
                         spec += std::to_string(1 + g.below(40));
                     if(g.chance(1, 2))
                         spec += "." + std::to_string(g.below(30));
                     if(g.chance(4, 5))
                         spec += "gGfFdxXobB?"[g.below(11)];
                     spec += "}|";
                     h.add(std::vformat(spec, std::make_format_args(x)));
                     const std::wstring w = std::vformat(std::wstring(spec.begin(), spec.end()), std::make_wformat_args(x));
                     for(wchar_t c : w)
                         h.add((u64)c);
                     return h.h;
                 }});
#endif
    v.push_back({"streams" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     T a = pick(g), b = pick(g);
                     at("streams", M::name(), (i64)a, (i64)b);
                     F x = M::mk(a), y = M::mk(b);
                     std::ostringstream os;
                     const std::ios_base::fmtflags all[] = {std::ios_base::showbase, std::ios_base::showpos, std::ios_base::uppercase, std::ios_base::left,
                                                            std::ios_base::right, std::ios_base::internal, std::ios_base::hex, std::ios_base::oct};
                     for(auto f : all)
                         if(g.chance(1, 4))
                             os.setf(f);
                     os << x << ' ' << y << ' ' << 17 << ' ' << x << '\n';
                     os.width(30);
                     os.fill('*');
                     os << y << '|' << x;
                     h.add(os.str());
                     std::istringstream is(os.str());
                     F p = M::mk(1), q = M::mk(2);
                     int k = 0;
                     is >> p >> q >> k;
                     h.add((u64)is.rdstate());
                     h.add(p);
                     h.add(q);
                     return h.h;
                 }});
    v.push_back({"mixed" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     T a = pick(g);
                     // small enough that nothing here leaves the format
                     F x = M::mk((i128)a % ((i128)1 << (M::bits - 3)));
                     at("mixed", M::name(), (i64)x.internal_value());
                     F y = x;
                     if((i128)y.internal_value() + one <= hi_of<T>())
                     {
                         h.add(++y);
                         h.add(y++ - y);
                         h.add(--y);
                         h.add(y--);
                     }
                     h.add(y);
                     if constexpr(M::is_signed)
                         h.add(-x);
                     y = x;
                     y /= 2;
                     h.add(y);
                     y *= 2;
                     h.add(y);
                     if(y.internal_value() != 0)
                     {
                         F z = x;
                         z /= y;
                         h.add(z);
                         z = x;
                         z %= y;
                         h.add(z);
                     }
                     h.add((u64)(x < F(1)) + 2 * (F(1) < x) + 4 * (x == F(1)) + 8 * (x != F(0)) + 16 * (x >= F(1)) + 32 * (F(1) >= x));
                     h.add((u64) static_cast<bool>(x));
                     h.add(std::numeric_limits<F>::max());
                     h.add(std::numeric_limits<F>::lowest());
                     if constexpr(M::ibits >= 3)
                     {
                         h.add(eirin::numbers::pi_v<F>());
                         h.add(eirin::numbers::e_v<F>());
                     }
                     return h.h;
                 }});
    v.push_back({"parse" + n, [=](rng_t& g)
                 {
                     fold_t h;
                     std::string s = g.chance(1, 3) ? hostile_text<i64>(g, 32, text_base) : random_numeral<i64>(g, 32, text_base);
                     if(g.chance(1, 4) && !s.empty())
                         s[g.below(s.size())] = (char)g.next();
                     at_text("parse", M::name(), s.data(), s.size());
                     F x = M::mk(1);
                     bool ok = eirin::fixed_from_cstring(s.data(), s.size(), x);
                     h.add((u64)ok);
                     if(ok)
                         h.add(x);
                     std::istringstream is(s);
                     F y = M::mk(2);
                     is >> y;
                     h.add((u64)is.fail());
                     if(!is.fail())
                         h.add(y);
                     return h.h;
                 }});
    if constexpr(M::is_signed && M::bits >= 32 && M::ibits >= 8)
    {
        v.push_back({"roots" + n, [=](rng_t& g)
                     {
                         fold_t h;
                         T a = pick(g);
                         if((i128)a == lo_of<T>())
                             return (u64)0;
                         at("roots", M::name(), (i64)a);
                         h.add(eirin::sqrt(M::mk(a)));
                         h.add(eirin::cbrt(M::mk(a)));
                         i128 lim = (i128)8 << M::frac;
                         h.add(eirin::hypot(M::mk((i128)a % lim), M::mk(lim / 3)));
                         return h.h;
                     }});
        v.push_back({"rest" + n, [=](rng_t& g)
                     {
                         fold_t h;
                         T a = pick(g), b = pick(g);
                         i128 A = (i128)a % ((i128)1 << (M::bits - 10));
                         at("rest", M::name(), (i64)A, (i64)b);
                         F x = M::mk(A), ip;
                         h.add(eirin::modf(x, ip));
                         h.add(ip);
                         const i128 B = (i128)b;
                         if((B < 0 ? -B : B) >= one / 8)
                             h.add(eirin::fmod(x, M::mk(B)));
                         h.add(eirin::degrees(M::mk(A % (one + one / 3))));
                         h.add(eirin::round(x));
                         i128 lim = (i128)5 << M::frac;
                         h.add(eirin::hypot(M::mk(A % lim), M::mk((i128)b % lim), M::mk(lim / 3)));
                         x += (int)(b & 63);
                         x -= (unsigned char)(a & 63);
                         x *= 3;
                         x /= (short)-7;
                         h.add(x);
                         h.add(2 - M::mk(A) / 2);
                         return h.h;
                     }});
        v.push_back({"trigonometry" + n, [=](rng_t& g)
                     {
                         fold_t h;
                         T a = pick(g);
                         if((i128)a == lo_of<T>())
                             return (u64)0;
                         at("trigonometry", M::name(), (i64)a);
                         F x = M::mk(a);
                         h.add(eirin::sin(x));
                         F c = eirin::cos(x);
                         h.add(c);
                         if((i128)c.internal_value() > (i128)16 || (i128)c.internal_value() < (i128)-16)
                             h.add(eirin::tan(x));
                         h.add(eirin::atan(x));
                         F y = M::mk((i128)a % (one + 1));
                         h.add(eirin::asin(y));
                         h.add(eirin::acos(y));
                         h.add(eirin::radians(x));
                         return h.h;
                     }});
        v.push_back({"logarithms" + n, [=](rng_t& g)
                     {
                         fold_t h;
                         T a = pick(g);
                         i128 A = (i128)a;
                         A = A < 0 ? -A : A;
                         if(A == 0 || A > hi_of<T>())
                             return (u64)0;
                         at("logarithms", M::name(), (i64)A);
                         h.add(eirin::log2(M::mk(A)));
                         h.add(eirin::log(M::mk(A)));
                         h.add(eirin::log10(M::mk(A)));
                         return h.h;
                     }});
        v.push_back({"powers" + n, [=](rng_t& g)
                     {
                         fold_t h;
                         T a = pick(g), b = pick(g);
                         i128 A = (i128)a % (4 * one), B = (i128)b % (3 * one);
                         at("powers", M::name(), (i64)A, (i64)B);
                         h.add(eirin::exp(M::mk(A)));
                         A = A < 0 ? -A : A;
                         if(A > one / 2)
                         {
                             h.add(eirin::pow(M::mk(A), M::mk(B)));
                             h.add(eirin::pow(M::mk(A), (int)(B / one)));
                         }
                         return h.h;
                     }});
    }
}

inline std::vector<op_t> all_ops()
{
    std::vector<op_t> v;
    format_ops<S32<16>>(v);
    format_ops<S64<32>>(v);
    format_ops<S32<12>>(v);
    format_ops<S64<24>>(v);
    format_ops<S32<16, true>>(v);
    format_ops<S64<32, true>>(v);
    format_ops<U32<16>>(v);
    format_ops<U64<32>>(v);
    format_ops<S16<8>>(v);
    format_ops<S8<4>>(v);
    v.push_back({"cordic", [](rng_t& g)
                 {
                     fold_t h;
                     i64 a = (i64)g.next() >> (1 + g.below(60));
                     at("cordic_sine", "both", a);
                     h.add(eirin::cordic_sine(eirin::fixed64::from_internal_value(a)));
                     h.add(eirin::cordic_sine(eirin::fixed32::from_internal_value((int32_t)(a >> 32))));
                     return h.h;
                 }});
    v.push_back({"table sine", [](rng_t& g)
                 {
                     fold_t h;
                     i64 a = (i64)g.next() >> (2 + g.below(60));
                     at("lut_calc_sin", "s64.32", a);
                     h.add(eirin::util::lut::lut_calc_sin<512>(eirin::fixed64::from_internal_value(a)));
                     return h.h;
                 },
                 true});
    v.push_back({"parse pointer", [](rng_t& g)
                 {
                     fold_t h;
                     std::string s = g.chance(1, 3) ? hostile_text<i64>(g, 32, text_base) : random_numeral<i64>(g, 32, text_base);
                     at_text("io::parse", "s32.16", s.data(), s.size());
                     eirin::fixed32 x = eirin::fixed32::from_internal_value(5);
                     if(g.chance(1, 4) && !s.empty())
                         s[g.below(s.size())] = (char)g.next(); // any byte, the sign of char does not matter
                     const char* e = eirin::io::parse(std::string_view(s), x);
                     h.add((u64)(e - s.data()));
                     h.add(x);
                     h.add(eirin::operator""_f32(s.data(), s.size()));
                     h.add(eirin::operator""_f64(s.data(), s.size()));
                     bool ok = eirin::f32_from_cstring(s.data(), s.size(), x);
                     h.add((u64)ok);
                     if(ok)
                         h.add(x);
                     return h.h;
                 }});
    v.push_back({"convert", [](rng_t& g)
                 {
                     fold_t h;
                     i64 a = (i64)g.next() >> (1 + g.below(60));
                     at("convert", "s64.32", a);
                     eirin::fixed64 x = eirin::fixed64::from_internal_value(a);
                     h.add(S64<16>(x));
                     h.add(S64<24>(x));
                     h.add(S64<20, true>(x));
                     eirin::fixed32 y = eirin::fixed32::from_internal_value((int32_t)(a >> 32));
                     h.add(eirin::fixed64(y));
                     h.add(S32<8>(y));
                     h.add(S32<8, true>(y));
                     return h.h;
                 }});
    v.push_back({"other table sines", [](rng_t& g)
                 {
                     fold_t h;
                     i64 a = (i64)g.next() >> (2 + g.below(60));
                     at("lut_calc_sin", "s64.32", a);
                     const auto x = eirin::fixed64::from_internal_value(a);
                     h.add(eirin::util::lut::lut_calc_sin<128>(x));
                     h.add(eirin::util::lut::lut_calc_sin<1000>(x));
                     h.add(eirin::util::lut::lut_calc_sin<>(x));
                     h.add(eirin::util::lut::angels_lut<64>()[(size_t)a & 63]);
                     return h.h;
                 },
                 true});
    v.push_back({"constant helpers", [](rng_t& g)
                 {
                     fold_t h;
                     const int f = 1 + (int)g.below(28);
                     const int e = -50 - (int)g.below(3);
                     const double d = std::ldexp((double)(g.next() >> 12), e);
                     at("eval_value", "", (i64)(d * 1e9), f);
                     h.add((u64)eirin::util::eval_value<int32_t>(d, f));
                     h.add((u64)eirin::util::eval_value<i64>(d, 2 * f));
                     h.add((u64)eirin::util::pi_calc::bbp_calc_pi<i64, 61, 15>());
                     h.add((u64)eirin::util::pi_calc::bbp_calc_pi<int32_t, 29, 8>());
                     return h.h;
                 },
                 true});
    v.push_back({"engine states", [](rng_t& g)
                 {
                     fold_t h;
                     u64 s = g.next() >> g.below(64);
                     at("engine states", "", (i64)s);
                     std::seed_seq q{(uint32_t)s, (uint32_t)(s >> 32), (uint32_t)7};
                     eirin::pcg2014 a;
                     eirin::pcg2014_64 b;
                     a.seed(q);
                     b.seed(q);
                     a.discard(s & 63);
                     b.discard(s >> 3 & 63);
                     std::stringstream ss;
                     ss << a << ' ' << b;
                     h.add(ss.str());
                     eirin::pcg2014 a2(a);
                     eirin::pcg2014_64 b2;
                     h.add((u64)(a == a2) + 2 * (b == b2));
                     h.add((u64)a2());
                     h.add((u64)a());
                     h.add((u64)b());
                     h.add((u64)a.min() + a.max());
                     eirin::fixed_random_engine_adapter<eirin::fixed64, eirin::pcg2014_64> e;
                     e.seed(s);
                     std::ostringstream es;
                     es << e;
                     h.add(es.str());
                     e.discard(s & 15);
                     h.add(e());
                     h.add(e.min());
                     h.add(e.max());
                     eirin::fixed_distribution_adapter<eirin::fixed64, std::uniform_int_distribution<i64>> d(eirin::fixed64(1), eirin::fixed64(2 + (int)(s & 1023)));
                     h.add(d.min());
                     h.add(d.max());
                     h.add(d(e));
                     auto p = d.param();
                     d.reset();
                     d.param(p);
                     h.add(d(e));
                     return h.h;
                 }});
    v.push_back({"engines", [](rng_t& g)
                 {
                     fold_t h;
                     u64 s = g.next() >> g.below(64);
                     at("engines", "", (i64)s);
                     eirin::pcg2014 a((uint32_t)s);
                     eirin::pcg2014_64 b(s);
                     eirin::fixed_random_engine_adapter<eirin::fixed32, eirin::mt19937> c;
                     eirin::fixed_random_engine_adapter<eirin::fixed64, eirin::pcg2014_64> e;
                     if(s & 1)
                         c.seed((uint32_t)s);
                     if(s & 2)
                         e.seed(s);
                     a.discard(s & 7);
                     for(int i = 0; i < 3; ++i)
                     {
                         h.add((u64)a());
                         h.add((u64)b());
                         h.add(c());
                         h.add(e());
                     }
                     eirin::fixed_distribution_adapter<eirin::fixed32, std::uniform_int_distribution<int>> d(eirin::fixed32(-3), eirin::fixed32(7));
                     eirin::fixed_int_distribution_adapter<eirin::fixed64, std::uniform_int_distribution<i64>> d2(eirin::fixed64(-3), eirin::fixed64(7));
                     h.add(d(c));
                     h.add(d2(b));
                     return h.h;
                 }});
    return v;
}
} // namespace vf
