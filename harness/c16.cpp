#define VF_QUICK 8
// C16: reading text that is not a numeral, not terminated, or too large.
#include "text.hpp"
#include <sstream>
using namespace vf;

template <typename F>
struct reader
{
    using M = fmt<F>;
    using T = typename M::store;
    std::string nm = M::name();
    meter_t m{"texts " + nm}, ma{"accepted " + nm}, mr{"rejected " + nm};
    static constexpr bool is32 = std::is_same_v<F, eirin::fixed32>;
    static constexpr bool is64 = std::is_same_v<F, eirin::fixed64>;
    guarded buf;
    F sentinel = M::mk(0x2B);

    void bad(const std::string& what, const std::string& s, const std::string& why)
    {
        fail(what + " " + nm, "\"" + escape(s) + "\": " + why);
    }
    // n describes the part of the text which is the number, whole: nothing else may be there
    void judge(const char* how, const std::string& s, const numeral& n, bool whole, bool accepted, F x)
    {
        const i128 got = (i128)x.internal_value();
        if(!accepted)
        {
            mr.see((i128)s.size(), n.any_digit);
            if(!(x == sentinel))
                bad(std::string(how) + " output", s, "rejected, but the output became raw " + str128(got));
            if(whole && n.any_digit && representable<T>(n, M::frac) > 0)
                bad(std::string(how) + " rejects", s, "representable");
            return;
        }
        ma.see((i128)s.size(), got);
        if(!whole)
        {
            bad(std::string(how) + " accepts", s, "not a numeral, read as raw " + str128(got));
            return;
        }
        if(!n.any_digit)
        {
            // nothing to read: only zero is acceptable
            if(got != 0)
                bad(std::string(how) + " without digits", s, "read as raw " + str128(got));
            return;
        }
        if(representable<T>(n, M::frac) < 0)
            bad(std::string(how) + " accepts", s, "not representable, read as raw " + str128(got));
        else if(!right_value(n, M::frac, got))
            bad(std::string(how) + " value", s, "read as raw " + str128(got));
    }
    void one(const std::string& s)
    {
        if(s.size() > buf.capacity() - 8)
            return;
        const numeral n = scan(s);
        m.see((i128)s.size(), (i128)n.used * 4 + n.neg * 2 + n.has_dot);
        const bool whole = n.used == s.size();
        for(int side = 0; side < 2; ++side)
        {
            const char* p = side ? buf.low(s) : buf.high(s);
            at_text("fixed_from_cstring", M::name(), p, s.size());
            F x = sentinel;
            bool ok = eirin::fixed_from_cstring(p, s.size(), x);
            judge("fixed_from_cstring", s, n, true, ok, x);
            if constexpr(is32)
            {
                at_text("f32_from_cstring", M::name(), p, s.size());
                x = sentinel;
                ok = eirin::f32_from_cstring(p, s.size(), x);
                judge("f32_from_cstring", s, n, whole, ok, x);
                at_text("io::parse view", M::name(), p, s.size());
                x = sentinel;
                const char* q = eirin::io::parse(std::string_view(p, s.size()), x);
                if(!s.empty())
                    judge("io::parse view", s, n, whole, q != p, x);
                if(q != p && q != p + s.size())
                    bad("io::parse view position", s, "neither the start nor the end");
                at_text("literal", M::name(), p, s.size());
                literal(s, n, whole, eirin::operator""_f32(p, s.size()));
            }
            if constexpr(is64)
            {
                at_text("literal", M::name(), p, s.size());
                literal(s, n, whole, eirin::operator""_f64(p, s.size()));
            }
        }
        if constexpr(is32)
        {
            // up to the first stop character, which is the last byte that may be read
            for(char stop : {';', 'a', '\0', '9', '\n'})
            {
                std::string t = s + stop;
                const char* p = buf.high(t);
                std::string head = t.substr(0, t.find(stop));
                const numeral h = scan(head);
                const char st[2] = {stop, 0};
                at_text("io::parse", M::name(), p, t.size());
                F x = sentinel;
                const char* q = eirin::io::parse(p, st, x);
                if(!head.empty())
                    judge("io::parse", t, h, h.used == head.size(), q != p, x);
                if(q != p && q != p + head.size())
                    bad("io::parse position", t, "neither the start nor the stop character");
            }
        }
        stream(s);
    }
    void literal(const std::string& s, const numeral& n, bool whole, F x)
    {
        ma.see((i128)s.size(), 3);
        const i128 got = (i128)x.internal_value();
        if(!whole || !n.any_digit || representable<T>(n, M::frac) < 0)
        {
            if(got != 0)
                bad("literal", s, "not representable, read as raw " + str128(got));
        }
        else if(representable<T>(n, M::frac) > 0 && !right_value(n, M::frac, got))
            bad("literal value", s, "read as raw " + str128(got));
    }
    void stream(const std::string& s)
    {
        auto space = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
        for(bool skip : {true, false})
        {
            std::string in = s + (skip ? "|rest" : "");
            size_t w = 0;
            if(skip)
                while(w < in.size() && space(in[w]))
                    ++w;
            const numeral n = scan(in.substr(w));
            at_text("operator>>", M::name(), in.data(), in.size());
            std::istringstream is(in);
            if(!skip)
                is >> std::noskipws;
            F x = sentinel;
            is >> x;
            if(!n.any_digit)
            {
                mr.see((i128)s.size(), 5);
                if(!is.fail() || !(x == sentinel))
                    bad("operator>> without digits", in, "no failure, or the output became raw " + str128((i128)x.internal_value()));
                continue;
            }
            judge("operator>>", in, n, true, !is.fail(), x);
            // what follows the number is still there
            is.clear();
            std::string rest;
            std::getline(is, rest, '\0');
            std::string want = in.substr(w + n.used);
            want = want.substr(0, want.find('\0'));
            if(rest != want)
                bad("operator>> position", in, "left \"" + escape(rest) + "\" unread, expected \"" + escape(want) + "\"");
        }
    }
    // wide text, where a character which only looks like a digit in its low byte ends the number
    void wide(const std::string& s, rng_t& g)
    {
        std::string plain = s;
        std::wstring in;
        for(char& c : plain)
        {
            if((unsigned char)c >= 128 || c == 0)
                c = '|';
            wchar_t w = (wchar_t)(unsigned char)c;
            if(g.chance(1, 8))
            {
                w = (wchar_t)((unsigned)w + (unsigned)((1 + g.below(0x10fe)) << 8));
                c = '|';
            }
            in += w;
        }
        auto space = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
        size_t k = 0;
        while(k < plain.size() && space(plain[k]))
            ++k;
        const numeral n = scan(plain.substr(k));
        at_text("wide operator>>", M::name(), plain.data(), plain.size());
        std::wistringstream is(in);
        F x = sentinel;
        is >> x;
        if(!n.any_digit)
        {
            mr.see((i128)s.size(), 9);
            if(!is.fail() || !(x == sentinel))
                bad("wide operator>> without digits", plain, "no failure, or the output became raw " + str128((i128)x.internal_value()));
            return;
        }
        judge("wide operator>>", plain, n, true, !is.fail(), x);
        is.clear();
        std::wstring rest;
        std::getline(is, rest, L'\0');
        if(rest != in.substr(k + n.used))
            bad("wide operator>> position", plain, strf("left %d characters unread, expected %d", (int)rest.size(), (int)(in.size() - k - n.used)));
    }
    void run(rng_t& g)
    {
        auto v = interesting_of<F>();
        for(u64 i = 0, n = reps(3000000, 50000); i < n; ++i)
        {
            const std::string s = hostile_text<T>(g, M::frac, v);
            one(s);
            if(i % 4 == 0)
                wide(s, g);
        }
        // every text of up to four characters of a small alphabet
        static const char alpha[] = "-.019 a/:";
        for(size_t len = 0; len <= (opt.tiny ? 3u : 4u); ++len)
        {
            size_t total = 1;
            for(size_t i = 0; i < len; ++i)
                total *= sizeof alpha - 1;
            for(size_t k = 0; k < total; ++k)
            {
                std::string s;
                for(size_t i = 0, q = k; i < len; ++i, q /= sizeof alpha - 1)
                    s += alpha[q % (sizeof alpha - 1)];
                one(s);
            }
        }
    }
};

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename F>()
    {
        for(int k = 0; k < 2; ++k)
            jobs.push_back({std::string("texts ") + fmt<F>::name() + (k ? " b" : " a"), [](rng_t& g)
                            {
                                reader<F> d;
                                d.run(g);
                            }});
    };
    flist<S32<1>, S32<30>, S64<1>, S64<62>, S16<14>, S16<1>, S8<6>, S8<1>, U8<4>, U8<7>, U16<15>, U32<31>, U64<63>, S32W<16>, S16<8, true>, U32<16, true>, S64<56>, S32<16>, S64<32>, S32<8>, S32<24>, S64<16>, S64<48>, S16<8>, S8<4>, U32<16>, U64<32>, U16<8>, S32<16, true>, S64<32, true>>::each(go);
    run_jobs(std::move(jobs));
    section("source literals", [](rng_t&)
            {
                auto one = []<typename F>(reader<F>& r, std::string s, F x)
                {
                    std::erase(s, '\'');
                    const numeral n = scan(s);
                    r.m.see((i128)s.size(), (i128)n.used * 4 + 1);
                    r.literal(s, n, n.used == s.size(), x);
                };
                reader<eirin::fixed32> r32;
                source_literals<7, false, true>([&](const std::string& s, eirin::fixed32 x) { one(r32, s, x); }, std::make_index_sequence<160>());
                reader<eirin::fixed64> r64;
                source_literals<13, true, true>([&](const std::string& s, eirin::fixed64 x) { one(r64, s, x); }, std::make_index_sequence<160>());
            });
}
