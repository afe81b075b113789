#define VF_QUICK 30
#ifndef PART
#    define PART 0
#endif
// C27: vectorised angle reduction (built with -mavx2; PART 1 adds the AVX-512 switches, which select other code on some trees).
#include "formats.hpp"
#include <cpuid.h>
#include <sys/wait.h>
#include <unistd.h>
// Other processors: the library's questions to cpuid are answered from a table while one is set. A library which asks by
// other means (a builtin, say) never gets here, and is then judged on the real processor only.
namespace vf_cpu
{
inline bool fake = false;
inline unsigned leaf1[4], leaf7[4];
inline unsigned asked = 0; // 1: leaf 1, 2: leaf 7
inline void ask(unsigned leaf, unsigned sub, unsigned& a, unsigned& b, unsigned& c, unsigned& d)
{
    const unsigned* t = !fake ? nullptr : leaf == 1 ? leaf1 : leaf == 7 && sub == 0 ? leaf7 : nullptr;
    if(!t)
    {
        __cpuid_count(leaf, sub, a, b, c, d);
        return;
    }
    asked |= leaf == 1 ? 1 : 2;
    a = t[0], b = t[1], c = t[2], d = t[3];
}
template <class A, class B, class C, class D>
void put(unsigned leaf, unsigned sub, A& a, B& b, C& c, D& d)
{
    unsigned r[4];
    ask(leaf, sub, r[0], r[1], r[2], r[3]);
    a = (A)r[0], b = (B)r[1], c = (C)r[2], d = (D)r[3];
}
} // namespace vf_cpu
#undef __cpuid
#undef __cpuid_count
#define __cpuid(leaf, a, b, c, d) ::vf_cpu::put((unsigned)(leaf), 0u, a, b, c, d)
#define __cpuid_count(leaf, sub, a, b, c, d) ::vf_cpu::put((unsigned)(leaf), (unsigned)(sub), a, b, c, d)
#include <eirin/ext/simd_math.hpp>
using namespace vf;
using F = eirin::fixed64;

static void judge(meter_t& m, const char* what, int64_t x, int64_t r)
{
    // the number of whole turns removed is exact in the stored 2 pi, which is within two units of the real one
    const i128 two_pi = (i128)26986075409ll - 1; // floor(2 pi 2^32)
    m.see(x, r);
    const i128 X = x, R = r, diff = X - R;
    bool ok = false;
    for(i128 p = two_pi - 1; p <= two_pi + 1 && !ok; ++p)
        ok = diff % p == 0;
    if(!ok)
        fail(std::string(what) + " congruent", "raw " + str128(X) + " reduced to raw " + str128(R) + ": not a whole number of turns");
    if(R != 0 && (R < 0) != (X < 0))
        fail(std::string(what) + " sign", "raw " + str128(X) + " reduced to raw " + str128(R));
    const i128 a = X < 0 ? -X : X, q = R < 0 ? -R : R;
    // less than a turn, up to the error of the stored 1 / (2 pi) for large angles
    const i128 lim = two_pi + 64 + (a >> 32) * 7;
    m.ratio((double)q / (double)lim, x);
    if(q > lim || q > a)
        fail(std::string(what) + " range", "raw " + str128(X) + " reduced to raw " + str128(R));
}

// the answer is kept for the life of a process, so each simulated processor gets one of its own
static void other_processors(rng_t& g)
{
    using P = eirin::simd::platform_support;
    static const char* const name[] = {"sse2", "sse4.2", "avx", "avx2", "avx512f", "avx512dq"};
    meter_t m("simulated processors");
    const int n = 160;
    int seen = 0;
    for(int k = 0; k < n; ++k)
    {
        for(auto& r : vf_cpu::leaf1)
            r = (unsigned)g.next();
        for(auto& r : vf_cpu::leaf7)
            r = (unsigned)g.next();
        if(k % 4 == 1) // one feature only
        {
            static const int at[] = {26, 20, 28, 5, 16, 17};
            int w = k / 4 % 6;
            vf_cpu::leaf1[2] &= ~(1u << 20 | 1u << 28), vf_cpu::leaf1[3] &= ~(1u << 26), vf_cpu::leaf7[1] &= ~(1u << 5 | 3u << 16);
            (w == 0 ? vf_cpu::leaf1[3] : w < 3 ? vf_cpu::leaf1[2] : vf_cpu::leaf7[1]) |= 1u << at[w];
        }
        vf_cpu::leaf1[2] |= 3u << 26; // the system keeps the vector registers
        int p[2];
        if(pipe(p))
            return;
        pid_t pid = fork();
        if(pid < 0)
        {
            close(p[0]), close(p[1]);
            return;
        }
        if(!pid)
        {
            vf_cpu::fake = true;
            unsigned char o[7] = {P::supports_sse2(), P::supports_sse4_2(), P::supports_avx(), P::supports_avx2(), P::supports_avx512_f(), P::supports_avx512_dq(), 0};
            o[6] = (unsigned char)vf_cpu::asked;
            ssize_t w = write(p[1], o, 7);
            _exit(w == 7 ? 0 : 3);
        }
        close(p[1]);
        unsigned char o[7] = {};
        ssize_t w = read(p[0], o, 7);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if(w != 7)
            continue;
        const unsigned c = vf_cpu::leaf1[2], d = vf_cpu::leaf1[3], b7 = vf_cpu::leaf7[1];
        const bool want[] = {(bool)(d >> 26 & 1), (bool)(c >> 20 & 1), (bool)(c >> 28 & 1), (bool)(b7 >> 5 & 1), (bool)(b7 >> 16 & 1), (bool)(b7 >> 17 & 1)};
        for(int i = 0; i < 6; ++i)
        {
            if(!(o[6] & (i < 3 ? 1 : 2)))
                continue;
            ++seen;
            m.see(i, o[i]);
            if((bool)o[i] != want[i])
                fail(std::string("feature ") + name[i] + " on another processor", "leaf 1: ecx " + std::to_string(c) + ", edx " + std::to_string(d) + ", leaf 7: ebx " + std::to_string(b7) + ": reported " + std::to_string(o[i]));
        }
    }
    notes["simulated"] = std::to_string(seen) + " feature answers on simulated processors";
}

void workload()
{
    section("other processors", [&](rng_t& g)
            { other_processors(g); });
    bool have = __builtin_cpu_supports("avx2");
#if PART == 1
    have = have && __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512vl");
#endif
    if(!have)
    {
        notes["skipped"] = "this processor lacks the vector instructions";
        return;
    }
    const u64 n = reps(40000000, 1200000);
    parallel("reduce", n / 4, 4096, [&](rng_t& g, u64 b, u64 e)
             {
                 static const auto v = interesting_of<F>();
                 meter_t m4("four lanes"), m2("two lanes"), mi("lane independence");
                 for(u64 i = b; i < e; ++i)
                 {
                     int64_t x[4];
                     for(auto& y : x)
                     {
                         u64 k = g.next();
                         if(k % 4 == 0) // whole turns and their neighbours
                             y = (int64_t)(k >> 38) * 26986075408ll * ((k & 256) ? 1 : -1) + (int64_t)((k >> 9) % 7) - 3;
                         else
                             y = random_raw<int64_t>(g, v);
                     }
                     at("simd_reduce_angle", "s64.32", x[0], x[1], x[2]);
                     std::array<F, 4> in{fmt<F>::mk(x[0]), fmt<F>::mk(x[1]), fmt<F>::mk(x[2]), fmt<F>::mk(x[3])};
                     auto out = eirin::simd::simd_reduce_angle(in);
                     for(int k = 0; k < 4; ++k)
                         judge(m4, "reduce four", x[k], out[k].internal_value());
                     auto p = eirin::simd::simd_reduce_angle_2({in[0], in[1]}), q = eirin::simd::simd_reduce_angle_2({in[3], in[2]});
                     const F two[4] = {p[0], p[1], q[1], q[0]};
                     for(int k = 0; k < 4; ++k)
                     {
                         judge(m2, "reduce two", x[k], two[k].internal_value());
                         mi.see(x[k]);
                         if(two[k] != out[k])
                             fail("lanes agree", "raw " + str128(x[k]) + ": two lanes give raw " + str128(two[k].internal_value()) + ", four lanes raw " + str128(out[k].internal_value()));
                     }
                     unsigned rot = 1 + (unsigned)(i % 3);
                     auto out2 = eirin::simd::simd_reduce_angle({in[rot % 4], in[(rot + 1) % 4], in[(rot + 2) % 4], in[(rot + 3) % 4]});
                     for(unsigned k = 0; k < 4; ++k)
                         if(out2[k] != out[(rot + k) % 4])
                             fail("lane independence", "raw " + str128(x[(rot + k) % 4]));
                 }
             });
    section("features", [&](rng_t&)
            {
                meter_t m("features");
                unsigned a, b, c, d, a7 = 0, b7 = 0, c7 = 0, d7 = 0;
                __get_cpuid(1, &a, &b, &c, &d);
                __get_cpuid_count(7, 0, &a7, &b7, &c7, &d7);
                using P = eirin::simd::platform_support;
                struct { const char* n; bool got, want; } t[] = {
                    {"sse2", P::supports_sse2(), (bool)(d >> 26 & 1)}, {"sse4.2", P::supports_sse4_2(), (bool)(c >> 20 & 1)}, {"avx", P::supports_avx(), (bool)(c >> 28 & 1)},
                    {"avx2", P::supports_avx2(), (bool)(b7 >> 5 & 1)}, {"avx512f", P::supports_avx512_f(), (bool)(b7 >> 16 & 1)}, {"avx512dq", P::supports_avx512_dq(), (bool)(b7 >> 17 & 1)}};
                for(int r = 0; r < 3; ++r)
                    for(auto& x : t)
                    {
                        m.see(x.got, x.want);
                        if(x.got != x.want)
                            fail(std::string("feature ") + x.n, "reported wrongly");
                    }
            });
}
