#define VF_QUICK 8
// C29: without exceptions (-fno-exceptions) every error ends the program through std::terminate.
// Standalone: the shared framework uses exceptions.  The terminate handler jumps back, so that thousands of errors can be watched.
#include <eirin/eirin.hpp>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#if __has_include(<eirin/io/format.hpp>)
#    include <eirin/io/format.hpp>
#endif

#ifndef EIRIN_NO_EXCEPTIONS
static constexpr bool detected = false;
#else
static constexpr bool detected = true;
#endif

using u64 = unsigned long long;
static std::jmp_buf back;
static volatile bool armed = false;
static void on_terminate()
{
    if(armed)
    {
        armed = false;
        std::longjmp(back, 1);
    }
    std::abort();
}
struct stat_t
{
    u64 n = 0, ended = 0, bad = 0;
    std::set<long long> seen;
    std::string sample;
};
static std::map<std::string, stat_t> stats;
static std::string first_detail[50];
static std::string first_key[50];
static unsigned nfail = 0;
static volatile long long cur_a = 0, cur_b = 0;
static const char* volatile cur_fn = "";
static char crash_path[4096];
static volatile u64 progress = 0;

template <typename Fn>
static void expect(const char* what, long long a, long long b, bool end, Fn&& fn)
{
    ++progress;
    cur_fn = what;
    cur_a = a;
    cur_b = b;
    volatile bool ended = false;
    if(setjmp(back) == 0)
    {
        armed = true;
        fn();
        armed = false;
    }
    else
        ended = true;
    stat_t& s = stats[what];
    ++s.n;
    s.ended += ended;
    s.seen.insert((a < 0 ? -1 : 1) * (64 - (a ? __builtin_clzll(a < 0 ? -(u64)a : (u64)a) : 64)) * 256 + (b & 255));
    s.sample = "a=" + std::to_string(a) + " b=" + std::to_string(b) + (ended ? " ended" : " returned");
    if(ended != end)
    {
        ++s.bad;
        if(nfail < 50)
        {
            first_key[nfail] = what;
            first_detail[nfail] = "raw " + std::to_string(a) + " and " + std::to_string(b) + (ended ? ": the program ended, a value was expected" : ": went on, the program has to end");
            ++nfail;
        }
    }
}
static u64 state = 1;
static u64 rnd()
{
    u64 z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static volatile long long sink;

template <typename F>
static void watch(u64 n)
{
    using T = typename F::value_type;
    auto mk = [](long long v) { return F::from_internal_value((T)v); };
    const long long one = 1ll << F::precision;
    for(u64 i = 0; i < n; ++i)
    {
        T a = (T)((long long)rnd() >> (rnd() % (sizeof(T) * 8)));
        if(i < 64)
            a = (T)((long long)i - 32);
        else if(i < 200)
            a = (T)(one * ((i & 1) ? 1 : -1) + (long long)(i / 2) - 66);
        if(a == std::numeric_limits<T>::min())
            continue;
        F x = mk(a);
        expect("divide", a, 0, true, [&] { sink = x.divide(mk(0)).internal_value(); });
        expect("divide_by", a, 0, true, [&] { F y = x; y.divide_by(mk(0)); sink = y.internal_value(); });
        expect("divide integer", a, 0, true, [&] { sink = x.divide(0).internal_value(); });
        expect("divide_by integer", a, 0, true, [&] { F y = x; y.divide_by(0); sink = y.internal_value(); });
        expect("divide", a, 1, false, [&] { sink = x.divide(F(1)).internal_value(); });
        expect("divide integer", a, 3, false, [&] { sink = x.divide(3).internal_value(); });
        expect("log2", a, 0, a <= 0, [&] { sink = eirin::log2(x).internal_value(); });
        expect("log", a, 0, a <= 0, [&] { sink = eirin::log(x).internal_value(); });
        expect("log10", a, 0, a <= 0, [&] { sink = eirin::log10(x).internal_value(); });
        const bool out = a > one || a < -one;
        expect("asin", a, 0, out, [&] { sink = eirin::asin(x).internal_value(); });
        expect("acos", a, 0, out, [&] { sink = eirin::acos(x).internal_value(); });
        const long long c = eirin::cos(x).internal_value();
        expect("tan", a, 0, c <= 1 && c >= -1, [&] { sink = eirin::tan(x).internal_value(); });
        if(a < 0)
            expect("pow", a, 1, true, [&] { sink = eirin::pow(x, mk(one / 2)).internal_value(); });
    }
    for(int k = -60; k <= 60; ++k)
    {
        long double p = 1.57079632679489661923132169163975144L * k * (long double)one;
        for(int d = -3; d <= 3; ++d)
        {
            long long a = (long long)p + d;
            if(a > std::numeric_limits<T>::max() || a <= std::numeric_limits<T>::min())
                continue;
            const long long c = eirin::cos(mk(a)).internal_value();
            expect("tan", a, 0, c <= 1 && c >= -1, [&] { sink = eirin::tan(mk(a)).internal_value(); });
        }
    }
}
static void on_signal(int sig)
{
    char b[256];
    int n = snprintf(b, sizeof b, "signal %d in %s a=%lld b=%lld\n", sig, cur_fn, cur_a, cur_b);
    int fd = open(crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd >= 0)
        (void)!write(fd, b, n);
    _exit(4);
}
// an error must end the program through std::terminate, not through exit, which looks like success
static bool finished = false;
static void on_exit_early()
{
    if(finished)
        return;
    char b[256];
    int n = snprintf(b, sizeof b, "ended by exit in %s a=%lld b=%lld\n", cur_fn, cur_a, cur_b);
    int fd = open(crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd >= 0)
        (void)!write(fd, b, n);
    _exit(4);
}
// once per second of processor time: an error that neither ends the program nor returns
static void on_tick(int)
{
    static u64 last = 0;
    static int idle = 0;
    idle = progress == last ? idle + 1 : 0;
    last = progress;
    if(idle < 30)
        return;
    char b[256];
    int n = snprintf(b, sizeof b, "no progress for 30 s in %s a=%lld b=%lld\n", cur_fn, cur_a, cur_b);
    int fd = open(crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd >= 0)
        (void)!write(fd, b, n);
    _exit(5);
}

int main(int argc, char** argv)
{
    std::string out = "result.json", tier = "quick";
    for(int i = 1; i + 1 < argc; i += 2)
    {
        std::string_view k = argv[i];
        if(k == "--seed")
            state = strtoull(argv[i + 1], nullptr, 10);
        else if(k == "--out")
            out = argv[i + 1];
        else if(k == "--tier")
            tier = argv[i + 1];
    }
    snprintf(crash_path, sizeof crash_path, "%s.crash", out.c_str());
    for(int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGABRT})
        std::signal(s, on_signal);
    std::signal(SIGPROF, on_tick);
    itimerval tick{{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &tick, nullptr);
    std::set_terminate(on_terminate);
    std::atexit(on_exit_early);
    std::at_quick_exit(on_exit_early);
    const u64 n = tier == "thorough" ? 2000000 : tier == "tiny" ? 400 : 40000;
    watch<eirin::fixed32>(n);
    watch<eirin::fixed64>(n);
    watch<eirin::fixed_num<int32_t, int64_t, 12, false>>(n / 4);
    watch<eirin::fixed_num<int64_t, __int128, 32, true>>(n / 4);
#ifdef EIRIN_HAS_LIB_FORMAT
    for(const char* s : {"{:k}", "{:Z}", "{:5q}", "{:99999999999999f}", "{:.99999999999999f}"})
    {
        eirin::fixed32 v(1);
        expect("format error", s[2], 0, true, [&] { sink = (long long)std::vformat(s, std::make_format_args(v)).size(); });
        (void)s;
    }
    {
        eirin::fixed32 v(1);
        expect("format", 0, 0, false, [&] { sink = (long long)std::vformat("{:8.3f}", std::make_format_args(v)).size(); });
    }
#endif
    finished = true;
    FILE* f = fopen(out.c_str(), "w");
    if(!f)
        return 3;
    fprintf(f, "{\"failures\":[");
    for(unsigned i = 0; i < nfail; ++i)
        fprintf(f, "%s{\"key\":\"no exceptions: %s\",\"detail\":\"%s\",\"count\":%llu}", i ? "," : "", first_key[i].c_str(), first_detail[i].c_str(), stats[first_key[i]].bad);
    fprintf(f, "],\"counts\":{");
    bool first = true;
    u64 ended = 0, bad = 0;
    for(auto& [k, s] : stats)
    {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), s.n);
        first = false;
        ended += s.ended;
        bad += s.bad;
    }
    fprintf(f, "},\"states\":{");
    first = true;
    for(auto& [k, s] : stats)
    {
        fprintf(f, "%s\"%s\":%zu", first ? "" : ",", k.c_str(), s.seen.size());
        first = false;
    }
    fprintf(f, "},\"worst\":{},\"notes\":{\"ended\":\"%llu errors ended the program\",\"detected\":\"%s\"},\"samples\":{", ended, detected ? "yes" : "no");
    first = true;
    for(auto& [k, s] : stats)
    {
        fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", k.c_str(), s.sample.c_str());
        first = false;
    }
    fprintf(f, "},\"total_failures\":%llu}\n", bad);
    fclose(f);
    return nfail ? 1 : 0;
}
