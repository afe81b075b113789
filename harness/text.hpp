// The oracle for decimal numerals, and buffers with guard pages around the text.
#pragma once
#include <locale>
#include "formats.hpp"
#include <string>
#include <sys/mman.h>

namespace vf
{
// [-]digits[.digits], judged exactly
struct numeral
{
    bool ok = false; // the whole text is a numeral with at least one digit
    bool neg = false;
    bool any_digit = false;
    size_t used = 0; // length of the longest prefix of that form
    bool huge = false; // the integral part does not fit 100 bits
    u128 ip = 0;
    std::string fp;
    bool has_dot = false;
};
inline numeral scan(const std::string& s)
{
    numeral n;
    size_t i = 0;
    if(i < s.size() && s[i] == '-')
    {
        n.neg = true;
        ++i;
    }
    auto dig = [&](char c) { return c >= '0' && c <= '9'; };
    while(i < s.size() && dig(s[i]))
    {
        n.any_digit = true;
        if(n.ip >> 100)
            n.huge = true;
        else
            n.ip = n.ip * 10 + (unsigned)(s[i] - '0');
        ++i;
    }
    if(i < s.size() && s[i] == '.')
    {
        n.has_dot = true;
        ++i;
        while(i < s.size() && dig(s[i]))
        {
            n.any_digit = true;
            n.fp += s[i++];
        }
    }
    n.used = i;
    n.ok = n.any_digit && i == s.size();
    return n;
}
// floor(0.fp * 2^f), by doubling the decimal digits
inline u64 frac_floor(const std::string& fp, unsigned f, bool* exact = nullptr)
{
    std::string d = fp;
    u64 r = 0;
    for(unsigned k = 0; k < f; ++k)
    {
        int c = 0;
        for(size_t i = d.size(); i-- > 0;)
        {
            int v = (d[i] - '0') * 2 + c;
            c = v >= 10;
            d[i] = (char)('0' + (c ? v - 10 : v));
        }
        r = r * 2 + (unsigned)c;
    }
    if(exact)
        *exact = d.find_first_not_of('0') == std::string::npos;
    return r;
}
// significant digits of the fraction: without leading zeros
inline size_t significant(const std::string& fp)
{
    size_t p = fp.find_first_not_of('0');
    return p == std::string::npos ? 0 : fp.size() - p;
}
// the magnitude, rounded down to the resolution; saturated
inline u128 magnitude(const numeral& n, unsigned f)
{
    if(n.huge || n.ip >> 62 >> 2)
        return (u128)1 << 120;
    return (n.ip << f) + frac_floor(n.fp, f);
}
// decimal digits of the fraction that are always kept
inline size_t exact_digits(unsigned f)
{
    size_t d = 0;
    u128 p = 10;
    while(p <= ((u128)1 << f) - 1)
    {
        ++d;
        p *= 10;
    }
    return d;
}

// how far (in units) the read magnitude may fall short of the truncated one: nothing when every digit is kept
inline u128 shortfall(const numeral& n, unsigned f)
{
    size_t d = exact_digits(f);
    if(n.fp.size() <= d)
        return 0;
    u128 p = 1;
    for(size_t i = 0; i < d; ++i)
        p *= 10;
    return ((u128)1 << f) / p + 1;
}
// whether reading the numeral has to succeed (1), has to fail (-1), or may do either (0)
template <typename T>
int representable(const numeral& n, unsigned f)
{
    const u128 mag = magnitude(n, f), limit = n.neg ? (u128)0 - (u128)lo_of<T>() : (u128)hi_of<T>();
    return mag <= limit ? 1 : mag > limit + shortfall(n, f) ? -1 : 0;
}
// whether the raw value is right for the numeral
inline bool right_value(const numeral& n, unsigned f, i128 got)
{
    const u128 mag = magnitude(n, f), gm = got < 0 ? (u128)0 - (u128)got : (u128)got;
    return (got == 0 || (got < 0) == n.neg) && gm <= mag && mag - gm <= shortfall(n, f);
}

// text between two inaccessible pages, ending right at the second one
class guarded
{
    char* base;
    size_t pages;
    static constexpr size_t page = 4096;

public:
    explicit guarded(size_t capacity_pages = 2) : pages(capacity_pages)
    {
        base = (char*)mmap(nullptr, (pages + 2) * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if(base == MAP_FAILED)
            abort();
        mprotect(base + page, pages * page, PROT_READ | PROT_WRITE);
    }
    guarded(const guarded&) = delete;
    guarded& operator=(const guarded&) = delete;
    ~guarded() { munmap(base, (pages + 2) * page); }
    // a copy whose last byte is the last accessible byte
    char* high(const std::string& s)
    {
        char* p = base + (pages + 1) * page - s.size();
        std::memcpy(p, s.data(), s.size());
        return p;
    }
    // a copy whose first byte is the first accessible byte
    char* low(const std::string& s)
    {
        std::memcpy(base + page, s.data(), s.size());
        return base + page;
    }
    size_t capacity() const { return pages * page; }
};

// exact decimal expansion of a raw value
inline std::string exact_decimal(i128 raw, unsigned f)
{
    bool neg = raw < 0;
    u128 u = neg ? (u128)0 - (u128)raw : (u128)raw;
    std::string s = (neg ? "-" : "") + str128((i128)(u >> f));
    u128 fr = u & (((u128)1 << f) - 1);
    if(fr)
    {
        s += '.';
        while(fr)
        {
            fr *= 10;
            s += (char)('0' + (int)(fr >> f));
            fr &= ((u128)1 << f) - 1;
        }
    }
    return s;
}

// a valid numeral: around the limits, the resolution, the halves of it, long and short
template <typename T>
std::string random_numeral(rng_t& g, unsigned f, const std::vector<T>& base)
{
    u64 r = g.next();
    std::string s;
    switch(r % 8)
    {
    case 0: // digits out of nowhere
        {
            if(g.chance(1, 2) && std::is_signed_v<T>)
                s += '-';
            size_t n = g.below(8) + 1;
            for(size_t i = 0; i < n; ++i)
                s += (char)('0' + g.below(10));
            if(g.chance(3, 4))
            {
                s += '.';
                n = g.chance(1, 8) ? g.below(60) : g.below(14);
                for(size_t i = 0; i < n; ++i)
                    s += (char)('0' + g.below(10));
            }
            break;
        }
    case 1: // small fractions, leading zeros
        {
            if(g.chance(1, 2) && std::is_signed_v<T>)
                s += '-';
            s += "0.";
            size_t n = g.below(30);
            s.append(n, '0');
            n = g.below(12) + 1;
            for(size_t i = 0; i < n; ++i)
                s += (char)('0' + g.below(10));
            break;
        }
    case 2: // nines
        {
            if(g.chance(1, 2) && std::is_signed_v<T>)
                s += '-';
            s += std::to_string(g.below(300));
            s += '.';
            s.append(g.below(25) + 1, '9');
            break;
        }
    case 3: // cut expansion
        {
            s = exact_decimal((i128)random_raw<T>(g, base), f);
            size_t p = s.find('.');
            if(p != std::string::npos)
                s.resize(p + 1 + g.below(s.size() - p));
            break;
        }
    case 4: // expansion and a tail
        {
            s = exact_decimal((i128)random_raw<T>(g, base), f);
            if(s.find('.') == std::string::npos)
                s += '.';
            size_t n = g.below(10);
            for(size_t i = 0; i < n; ++i)
                s += (char)('0' + g.below(10));
            break;
        }
    case 5: // around the limits
        {
            i128 v = (r & 256) ? hi_of<T>() : lo_of<T>();
            v += (i128)(i64)(g.next() >> (g.next() % 64)) * ((r & 512) ? 1 : -1);
            if(!std::is_signed_v<T> && v < 0)
                v = 0;
            s = exact_decimal(v, f);
            break;
        }
    case 6: s = exact_decimal((i128)base[g.below(base.size())], f); break;
    default: // leading zeros
        {
            s = exact_decimal((i128)random_raw<T>(g, base), f);
            size_t p = s[0] == '-';
            s.insert(p, g.below(30), '0');
            if(g.chance(1, 3) && s.find('.') != std::string::npos)
                s.append(g.below(40), '0');
        }
    }
    return s;
}

// a text that might or might not be a numeral
template <typename T>
std::string hostile_text(rng_t& g, unsigned f, const std::vector<T>& base)
{
    static const char* fixed_cases[] = {"", "-", ".", "-.", "+1", "--1", "1-", "1..2", "1.2.3", " 1", "1 ", "\t-3", "0x10", "1e5", "1E-5", "nan", "inf", "-inf", "1,5", "1'000", "/", ":", "1/2", "9:", "-0", "-0.0", "0", "00", ".5", "-.5", "5.", "-5.", "0.", "\n", "a", "-a", "1a", "1.a", "1.5a"};
    std::string s;
    u64 r = g.next();
    switch(r % 6)
    {
    case 0: return fixed_cases[g.below(std::size(fixed_cases))];
    case 1:
        {
            size_t n = g.below(24);
            static const char alpha[] = "0123456789..--+ eExX,'/:\t\n";
            for(size_t i = 0; i < n; ++i)
                s += g.chance(1, 12) ? (char)g.next() : alpha[g.below(sizeof alpha - 1)];
            return s;
        }
    case 2: // many digits
        {
            if(g.chance(1, 3))
                s += '-';
            size_t n = g.below(g.chance(1, 20) ? 3000 : 60);
            for(size_t i = 0; i < n; ++i)
                s += (char)('0' + g.below(10));
            if(g.chance(1, 2))
                s += '.';
            n = g.below(g.chance(1, 20) ? 3000 : 60);
            for(size_t i = 0; i < n; ++i)
                s += g.chance(1, 2) ? '0' : (char)('0' + g.below(10));
            return s;
        }
    default: // a numeral with some characters changed
        {
            s = random_numeral<T>(g, f, base);
            int k = (int)g.below(3) + (r & 1);
            for(int i = 0; i < k; ++i)
            {
                static const char alpha[] = "0123456789.-+ eax/:\0\n\xff";
                char c = g.chance(1, 4) ? (char)g.next() : alpha[g.below(sizeof alpha - 1)];
                size_t p = g.below(s.size() + 1);
                switch(g.below(3))
                {
                case 0: s.insert(p, 1, c); break;
                case 1:
                    if(p < s.size())
                        s[p] = c;
                    break;
                default:
                    if(p < s.size())
                        s.erase(p, 1);
                }
            }
            return s;
        }
    }
}

struct source_text
{
    char s[40] = {};
    size_t n = 0;
};

// numbers as they may stand in a source file, with digit separators
constexpr source_text text_of(unsigned k, unsigned int_digits, bool hostile)
{
    source_text t;
    u64 w = k * 0x9E3779B97F4A7C15ull + 0x1234567;
    auto next = [&](unsigned n)
    {
        w = w * 6364136223846793005ull + 1442695040888963407ull;
        return (unsigned)(w >> 40) % n;
    };
    auto digits = [&](unsigned n)
    {
        for(unsigned i = 0; i < n; ++i)
        {
            t.s[t.n++] = (char)('0' + (k % 7 == 3 ? (i + 1 == n) : k % 7 == 5 ? 9 : next(10)));
            if(i + 1 < n && next(4) == 0)
                t.s[t.n++] = '\'';
        }
    };
    digits(1 + next(int_digits));
    if(k % 5)
    {
        t.s[t.n++] = '.';
        digits(next(k % 3 ? 8 : 14));
    }
    if(hostile && k % 4 == 1) // the other forms a number may have in a source file
    {
        t.s[t.n++] = "epx.ul"[next(6)];
        digits(1 + next(2));
    }
    else if(hostile && k % 4 == 3 && t.n > 1)
    {
        t.s[0] = '0';
        t.s[1] = "xbXB"[next(4)];
    }
    return t;
}

// evaluates them as literals and calls seen(text, value)
template <unsigned int_digits, bool wide, bool hostile, typename S, size_t... k>
void source_literals(S seen, std::index_sequence<k...>)
{
    using F = std::conditional_t<wide, eirin::fixed64, eirin::fixed32>;
    auto one = [&]<unsigned q>()
    {
        static constexpr source_text t = text_of(q, int_digits, hostile);
        constexpr F x = []<size_t... i>(std::index_sequence<i...>)
        {
            if constexpr(wide)
                return eirin::operator""_f64<t.s[i]...>();
            else
                return eirin::operator""_f32<t.s[i]...>();
        }(std::make_index_sequence<t.n>());
        seen(std::string(t.s, t.n), x);
    };
    (one.template operator()<k>(), ...);
}


// a locale whose numbers look different: neither printing nor reading may follow it
template <typename C>
struct grouped : std::numpunct<C>
{
    C do_decimal_point() const override { return C(','); }
    C do_thousands_sep() const override { return C('.'); }
    std::string do_grouping() const override { return "\1"; }
};
template <typename C>
const std::locale& odd_locale()
{
    static const std::locale l(std::locale::classic(), new grouped<C>);
    return l;
}

} // namespace vf
