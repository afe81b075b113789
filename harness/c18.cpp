#define VF_QUICK 12
// C18: std::format of fixed numbers.
#include "text.hpp"
#include <eirin/io/format.hpp>
#include <format>
using namespace vf;

struct spec_t
{
    char fill = 0, align = 0, sign = 0, type = 0;
    bool alt = false, zero = false, dot = false;
    int width = -1, prec = -1;
    std::string text() const
    {
        std::string s;
        if(fill)
            s += fill;
        if(align)
            s += align;
        if(sign)
            s += sign;
        if(alt)
            s += '#';
        if(zero)
            s += '0';
        if(width >= 0)
            s += std::to_string(width);
        if(dot)
            s += "." + (prec >= 0 ? std::to_string(prec) : std::string());
        if(type)
            s += type;
        return s;
    }
};

// what the standard's field rules and the documented types make of it
static std::string reference(i128 raw, unsigned f, const spec_t& sp)
{
    const bool neg = raw < 0;
    const u128 u = neg ? (u128)0 - (u128)raw : (u128)raw;
    std::string prefix, body;
    if(neg)
        prefix = "-";
    else if(sp.sign == '+' || sp.sign == ' ')
        prefix = std::string(1, sp.sign);
    auto whole = [](u128 v, unsigned base, bool upper)
    {
        const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
        std::string s;
        do
        {
            s += d[(unsigned)(v % base)];
            v /= base;
        } while(v);
        std::reverse(s.begin(), s.end());
        return s;
    };
    switch(sp.type)
    {
    case 'd': body = whole(u >> f, 10, false); break;
    case 'x':
    case 'X':
        if(sp.alt)
            prefix += sp.type == 'x' ? "0x" : "0X";
        body = whole(u >> f, 16, sp.type == 'X');
        break;
    case 'o':
        if(sp.alt)
            prefix += "0";
        body = whole(u >> f, 8, false);
        break;
    case 'b':
    case 'B':
        if(sp.alt)
            prefix += sp.type == 'b' ? "0b" : "0B";
        body = whole(u >> f, 2, false);
        break;
    case '?':
        if(sp.alt)
            prefix += "0x";
        body = whole(u, 16, false);
        break;
    default:
        {
            body = whole(u >> f, 10, false);
            const int prec = sp.dot ? std::max(sp.prec, 0) : 6;
            std::string fr;
            u128 r = u & (((u128)1 << f) - 1);
            while(r && (int)fr.size() < prec)
            {
                r *= 10;
                fr += (char)('0' + (int)(r >> f));
                r &= ((u128)1 << f) - 1;
            }
            if((sp.type == 'f' || sp.type == 'F') && (int)fr.size() < prec)
                fr.append(prec - fr.size(), '0');
            if(!fr.empty())
                body += "." + fr;
        }
    }
    size_t width = sp.width > 0 ? (size_t)sp.width : 0, len = prefix.size() + body.size();
    if(len >= width)
        return prefix + body;
    size_t pad = width - len;
    if(sp.zero && !sp.align)
        return prefix + std::string(pad, '0') + body;
    char fill = sp.fill ? sp.fill : ' ';
    switch(sp.align)
    {
    case '<': return prefix + body + std::string(pad, fill);
    case '^': return std::string(pad / 2, fill) + prefix + body + std::string(pad - pad / 2, fill);
    default: return std::string(pad, fill) + prefix + body;
    }
}

template <typename T, typename I, unsigned int f, bool r>
static eirin::io::fixed_num_formatter<char, T, I, f, r> formatter_of(const eirin::fixed_num<T, I, f, r>&);

static spec_t random_spec(rng_t& g)
{
    spec_t s;
    if(g.chance(1, 2))
    {
        s.align = "<>^"[g.below(3)];
        if(g.chance(1, 2))
        {
            static const char fills[] = "*#0 -+.x<>^_9f:/";
            s.fill = fills[g.below(sizeof fills - 1)];
        }
    }
    if(g.chance(1, 3))
        s.sign = "+- "[g.below(3)];
    s.alt = g.chance(1, 4);
    s.zero = g.chance(1, 4);
    if(g.chance(1, 2))
    {
        s.width = 1 + (int)g.below(g.chance(1, 10) ? 200 : 40);
    }
    if(g.chance(1, 2))
    {
        s.dot = true;
        s.prec = (int)g.below(g.chance(1, 10) ? 150 : 14);
    }
    static const char types[] = "gGfFdxXobB?";
    if(g.chance(5, 6))
        s.type = types[g.below(sizeof types - 1)];
    return s;
}

// the grammar: 1 a valid specification, 0 an invalid one, -1 left open
static int grammar(const std::string& t, spec_t& s)
{
    size_t i = 0;
    auto is = [&](const char* set) { return i < t.size() && std::strchr(set, t[i]) && t[i]; };
    if(t.find('{') != std::string::npos || t.find('}') != std::string::npos)
        return -1;
    if(t.size() > 1 && std::strchr("<>^", t[1]))
    {
        s.fill = t[0], s.align = t[1];
        i = 2;
    }
    else if(is("<>^"))
        s.align = t[i++];
    if(is("+- "))
        s.sign = t[i++];
    if(is("#"))
        s.alt = true, ++i;
    if(is("0"))
        s.zero = true, ++i;
    auto number = [&](int& n)
    {
        i64 v = 0;
        for(; is("0123456789"); ++i)
            if(v < 10000000000)
                v = v * 10 + (t[i] - '0');
        n = (int)std::min<i64>(v, 2000000000);
    };
    if(is("0123456789"))
    {
        const bool lead = t[i] == '0';
        number(s.width);
        if(lead)
            return -1; // a second leading zero
    }
    if(is("."))
    {
        s.dot = true;
        ++i;
        if(!is("0123456789"))
            return -1;
        number(s.prec);
    }
    if(s.width > 10000 || s.prec > 10000)
        return -1;
    if(is("gGfFdxXobB?"))
        s.type = t[i++];
    return i == t.size();
}

template <typename F>
struct formatting
{
    using M = fmt<F>;
    using T = typename M::store;
    std::string nm = M::name();
    meter_t m{"format " + nm}, mw{"wide format " + nm}, mi{"invalid specs " + nm};

    void one(T a, const spec_t& sp)
    {
        // "#o" of zero is left open
        if(sp.alt && sp.type == 'o' && ((i128)a < 0 ? -(i128)a : (i128)a) >> M::frac == 0)
            return;
        const F x = M::mk(a);
        const std::string st = sp.text(), fs = st.empty() ? "{}" : "{:" + st + "}";
        at_text("std::format", M::name(), fs.data(), fs.size());
        cur->a = (i64)a;
        m.see((i128)a, (i128)hash_str(st.c_str()) & 0xFFFF);
        const std::string want = reference((i128)a, M::frac, sp);
        std::string got;
        try
        {
            got = std::vformat(fs, std::make_format_args(x));
        }
        catch(const std::exception& e)
        {
            fail("format " + nm, "raw " + str128((i128)a) + " with \"" + escape(fs) + "\": exception " + e.what());
            return;
        }
        // the other ways to the same text
        if(((u64)a * 31 + st.size()) % 8 == 0)
        {
            const size_t cut = got.size() * (1 + st.size() % 4) / 4;
            std::vector<char> buf(got.size() + 9, '~');
            char* const end = std::vformat_to(buf.data() + 4, fs, std::make_format_args(x));
            if(end != buf.data() + 4 + got.size() || std::string(buf.data() + 4, end) != got || *end != '~' || buf[3] != '~')
                fail("format_to " + nm, "raw " + str128((i128)a) + " with \"" + escape(fs) + "\" differs from std::format");
            // straight through the formatter class, any output iterator
            using FF = std::remove_cvref_t<decltype(formatter_of(x))>;
            typename FF::state_type state;
            state.align_mode = sp.align, state.sign_mode = sp.sign ? sp.sign : '-', state.alt_form = sp.alt, state.zero_pad = sp.zero && !sp.align;
            state.width_val = std::max(sp.width, 0), state.precision = sp.dot ? std::max(sp.prec, 0) : -1, state.type = sp.type ? sp.type : 'g', state.fill_ch = sp.fill ? sp.fill : ' ';
            FF ff;
            ff.set_state(state);
            std::string direct;
            ff.format_to(std::back_inserter(direct), x);
            if(direct != want || ff.get_state().width_val != state.width_val)
                fail("fixed_num_formatter " + nm, "raw " + str128((i128)a) + " with \"" + escape(fs) + "\": \"" + escape(direct) + "\", expected \"" + want + "\"");
            mw.see((i128)a, (i128)cut);
            // wide, with a fill character that no narrow one can stand for
            if(sp.fill && sp.width > 0)
            {
                const wchar_t fill = (wchar_t)(0x2500 + (st.size() * 37 + (u64)a) % 200);
                std::wstring ws(fs.begin(), fs.end()), ww(want.begin(), want.end());
                ws[2] = fill;
                if(sp.align == '<' || sp.align == '>' || sp.align == '^')
                {
                    spec_t bare = sp;
                    bare.width = -1;
                    const std::string inner = reference((i128)a, M::frac, bare);
                    const size_t pad = want.size() - inner.size(), left = sp.align == '<' ? 0 : sp.align == '>' ? pad : pad / 2;
                    ww = std::wstring(left, fill) + std::wstring(inner.begin(), inner.end()) + std::wstring(pad - left, fill);
                }
                if(std::vformat(ws, std::make_wformat_args(x)) != ww)
                    fail("wide fill " + nm, "raw " + str128((i128)a) + " with \"" + escape(fs) + "\" and a wide fill character differs");
            }
        }
        if(got != want)
            fail("format " + nm, "raw " + str128((i128)a) + " with \"" + escape(fs) + "\": \"" + escape(got) + "\", expected \"" + want + "\"");
    }
    // inside other text, positional, repeated, wide
    void context(T a, T b, const spec_t& s1, const spec_t& s2, rng_t& g)
    {
        if((s1.alt && s1.type == 'o') || (s2.alt && s2.type == 'o'))
            return;
        const F x = M::mk(a), y = M::mk(b);
        const std::string t1 = s1.text(), t2 = s2.text(), r1 = reference((i128)a, M::frac, s1), r2 = reference((i128)b, M::frac, s2);
        static const char* glue[] = {"", " ", "<", ">", "^", ": ", "}}", "{{", "f", "0", "<5", "|%d"};
        const char *g1 = glue[g.below(std::size(glue))], *g2 = glue[g.below(std::size(glue))];
        auto lit = [](std::string s)
        {
            for(const char* w : {"}}", "{{"})
                for(size_t p; (p = s.find(w)) != std::string::npos;)
                    s.erase(p, 1);
            return s;
        };
        auto field = [](const char* id, const std::string& t) { return std::string("{") + id + (t.empty() ? "" : ":" + t) + "}"; };
        std::string fs, want;
        if(g.chance(1, 2))
        {
            fs = g1 + field("", t1) + g2 + field("", t2) + g1;
            want = lit(g1) + r1 + lit(g2) + r2 + lit(g1);
        }
        else
        {
            fs = field("1", t2) + g1 + field("0", t1) + g2 + field("1", t2);
            want = r2 + lit(g1) + r1 + lit(g2) + r2;
        }
        at_text("std::format text", M::name(), fs.data(), fs.size());
        m.see((i128)a, (i128)b);
        std::string got;
        std::wstring wgot;
        try
        {
            got = std::vformat(fs, std::make_format_args(x, y));
            wgot = std::vformat(std::wstring(fs.begin(), fs.end()), std::make_wformat_args(x, y));
        }
        catch(const std::exception& e)
        {
            fail("format text " + nm, "\"" + escape(fs) + "\": exception " + e.what());
            return;
        }
        if(got != want)
            fail("format text " + nm, "raw " + str128((i128)a) + ", " + str128((i128)b) + " with \"" + escape(fs) + "\": \"" + escape(got) + "\", expected \"" + want + "\"");
        mw.see((i128)a, (i128)b);
        if(wgot != std::wstring(want.begin(), want.end()))
            fail("wide format " + nm, "raw " + str128((i128)a) + " with \"" + escape(fs) + "\" differs from \"" + want + "\"");
    }
    // whatever the spec, the answer is a text or a format_error
    void invalid(T a, rng_t& g)
    {
        const F x = M::mk(a);
        std::string st;
        bool must = false;
        switch(g.below(4))
        {
        case 0: // unknown types
            st = random_spec(g).text();
            if(!st.empty() && std::string("gGfFdxXobB?").find(st.back()) != std::string::npos)
                st.pop_back();
            // (a letter after a sign of alignment would be a fill, so put it last)
            st += "acehijklmnpqrstuvwyzACDEHIJKLMNOPQRSTUVWYZ!@$%&*"[g.below(47)];
            must = true;
            break;
        case 1: // garbage after the type
            {
                spec_t s = random_spec(g);
                s.type = "gfdx"[g.below(4)];
                st = s.text() + "gfdx 7.#"[g.below(8)];
                must = true;
                break;
            }
        case 2: // huge numbers
            st = random_spec(g).align ? "<" : "";
            st += (g.chance(1, 2) ? "." : "") + std::string("9") + std::to_string(g.next()) + "f";
            must = true;
            break;
        default:
            {
                size_t n = g.below(8);
                for(size_t i = 0; i < n; ++i)
                    st += "<>^+- #0123.gfdxob?:*{"[g.below(22)];
            }
        }
        const std::string fs = "{:" + st + "}";
        at_text("std::format invalid", M::name(), fs.data(), fs.size());
        mi.see((i128)a, (i128)hash_str(st.c_str()) & 0xFFFF);
        spec_t sp;
        const int ok = must ? 0 : grammar(st, sp);
        must = ok == 0;
        if(ok == 1)
        {
            one(a, sp);
            return;
        }
        try
        {
            std::string s = std::vformat(fs, std::make_format_args(x));
            if(must)
                fail("invalid spec " + nm, "\"" + escape(fs) + "\" accepted: \"" + escape(s) + "\"");
        }
        catch(const std::format_error&)
        {
        }
        catch(const std::exception& e)
        {
            fail("invalid spec exception " + nm, "\"" + escape(fs) + "\": " + e.what());
        }
    }
    // a field without its end is an error, and nothing behind the text is looked at (the end of the memory, when sanitized)
    template <typename C>
    bool cut_off(const F& x, const std::string& text, const std::string& tail)
    {
        const size_t n = text.size();
#ifdef VF_SANITIZED
        std::unique_ptr<C[]> mem(new C[n]);
#else
        std::unique_ptr<C[]> mem(new C[n + tail.size()]);
        std::copy(tail.begin(), tail.end(), mem.get() + n);
#endif
        std::copy(text.begin(), text.end(), mem.get());
        const std::basic_string_view<C> view(mem.get(), n);
        try
        {
            if constexpr(sizeof(C) == 1)
                (void)std::vformat(view, std::make_format_args(x));
            else
                (void)std::vformat(view, std::make_wformat_args(x));
        }
        catch(const std::format_error&)
        {
            // a formatter is also given the specification alone
            const std::string st = text.substr(2);
            spec_t sp;
            if(grammar(st, sp) == 1)
                try
                {
                    std::formatter<F, C> f;
                    std::basic_format_parse_context<C> pc(view.substr(2));
                    return f.parse(pc) == pc.end();
                }
                catch(const std::exception&)
                {
                    return false;
                }
            return true;
        }
        catch(...)
        {
        }
        return false;
    }
    void unterminated(T a, rng_t& g)
    {
        std::string st = random_spec(g).text();
        st.resize(g.below(st.size() + 1));
        if(st.find_first_of("{}") != std::string::npos)
            return;
        static const char* tails[] = {"9}", "}", "f}", "<}", ".3}", "0d}", "<5}"};
        const std::string fs = "{:" + st, tail = tails[g.below(std::size(tails))];
        at_text("std::format without an end", M::name(), fs.data(), fs.size());
        mi.see((i128)a, (i128)hash_str(st.c_str()) & 0xFFFF);
        if(!cut_off<char>(M::mk(a), fs, tail) || !cut_off<wchar_t>(M::mk(a), fs, tail))
            fail("unterminated spec " + nm, "\"" + escape(fs) + "\" followed in memory by \"" + tail + "\"");
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        // every type with plain fields, over the structured values
        for(T a : v)
            for(char type : {'\0', 'g', 'f', 'F', 'd', 'x', 'X', 'o', 'b', 'B', '?'})
            {
                spec_t s;
                s.type = type;
                one(a, s);
                s.dot = true;
                for(int p : {0, 1, 3, 20})
                {
                    s.prec = p;
                    one(a, s);
                }
            }
        for(u64 i = 0, n = reps(3000000, 60000); i < n; ++i)
        {
            unterminated(random_raw<T>(g, v), g);
            one(random_raw<T>(g, v), random_spec(g));
            one(random_raw<T>(g, v), random_spec(g));
            context(random_raw<T>(g, v), random_raw<T>(g, v), random_spec(g), random_spec(g), g);
            if(i % 4 == 0)
                invalid(random_raw<T>(g, v), g);
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        jobs.push_back({std::string("format ") + fmt<F>::name(), [](rng_t& g)
                        {
                            formatting<F> d;
                            d.run(g);
                        }});
    };
#if PART == 0
    flist<S64<62>, S64<1>, S32<16>, S64<32>, S32<8>, S32<24>, S64<48>>::each(go);
#else
    flist<S32W<16>, U32<31>, U64<63>, U8<4>, S8<7>, S16<15>, S16<8>, S8<4>, U32<16>, U64<32>, U16<8>, S32<16, true>, S32<30>>::each(go);
#endif
    run_jobs(std::move(jobs));
}
