// Shared runtime-monitoring framework for the property harnesses.
// Every harness runs the real headers of the library under generated workloads, and an oracle
// (written independently, on exact wide integers / reference floating point) judges every event.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <fcntl.h>
#include <utility>
#include <vector>

#ifdef __cpp_exceptions
#    define VF_TRY try
#    define VF_CATCH(HANDLE)           \
        catch(const std::exception& ex) \
        {                              \
            HANDLE;                    \
        }
#else
#    define VF_TRY
#    define VF_CATCH(HANDLE)
#endif

namespace vf
{
using i128 = __int128;
using u128 = unsigned __int128;
using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- options
struct options_t
{
    u64 seed = 1;
    bool thorough = false;
    bool tiny = false; // the short workloads run under sanitizers
    unsigned threads = 8;
    std::string out = "result.json";
    std::string dump; // file to write every evaluation to (determinism replays)
    std::string only; // substring filter on check names (replay)
    unsigned hang_seconds = 60;
};
inline options_t opt;
// repetitions of a random workload, and the step of a sweep, by tier
inline u64 mix64(u64 x)
{
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ull;
    return x ^ (x >> 33);
}
#ifndef VF_QUICK // how much of the random workload a quick run does
#    define VF_QUICK 1
#endif
#ifndef VF_TINY // and a sanitized one
#    define VF_TINY 1
#endif
inline u64 reps(u64 thorough, u64 quick) { return opt.thorough ? std::max<u64>(thorough, quick * VF_QUICK) : opt.tiny ? quick * VF_TINY / 25 + 1 : quick * VF_QUICK; }
inline u64 step(u64 thorough, u64 quick) { return opt.thorough ? thorough : opt.tiny ? quick * 101 : quick; }

// ---------------------------------------------------------------- rng
struct rng_t
{
    u64 s;
    explicit rng_t(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567887654321ull) { next(); next(); }
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? (u64)(((u128)next() * n) >> 64) : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
inline u64 mix(u64 a, u64 b)
{
    rng_t r(a ^ (b * 0xD6E8FEB86659FD93ull) ^ (b >> 7));
    return r.next();
}
inline u64 hash_str(const char* s)
{
    u64 h = 1469598103934665603ull;
    while(*s)
        h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- the current event (for crash / hang reports)
struct cur_t
{
    const char* volatile fn = "";
    const char* volatile fmt = "";
    volatile i64 a = 0, b = 0, c = 0;
    const char* volatile txt = nullptr;
    volatile size_t len = 0;
    volatile u64 seq = 0;
    volatile bool active = false;
};
inline constexpr unsigned max_workers = 64;
inline cur_t curs[max_workers];
inline thread_local unsigned worker_id = 0;
inline thread_local cur_t* cur = &curs[0];

#ifdef VF_NO_TRACE // the race detector would see the monitor's own bookkeeping
inline void at(const char*, const char*, i64, i64 = 0, i64 = 0) {}
inline void at_text(const char*, const char*, const char*, size_t) {}
#else
inline void at(const char* fn, const char* fmt, i64 a, i64 b = 0, i64 c = 0)
{
    cur->fn = fn;
    cur->fmt = fmt;
    cur->a = a;
    cur->b = b;
    cur->c = c;
    cur->txt = nullptr;
    cur->seq = cur->seq + 1;
}
inline void at_text(const char* fn, const char* fmt, const char* txt, size_t len)
{
    cur->fn = fn;
    cur->fmt = fmt;
    cur->txt = txt;
    cur->len = len;
    cur->seq = cur->seq + 1;
}
#endif

inline std::string escape(const char* s, size_t n)
{
    std::string r;
    char b[8];
    for(size_t i = 0; i < n; ++i)
    {
        unsigned char ch = (unsigned char)s[i];
        if(ch >= 32 && ch < 127 && ch != '\\' && ch != '"')
            r += (char)ch;
        else
        {
            snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        }
    }
    return r;
}
inline std::string escape(const std::string& s) { return escape(s.data(), s.size()); }

inline std::string describe(const cur_t& c)
{
    char b[512];
    if(c.txt)
    {
        std::string e = escape(c.txt, std::min<size_t>((size_t)c.len, 120));
        snprintf(b, sizeof b, "%s [%s] text(len %zu)=\"%s\"", c.fn, c.fmt, (size_t)c.len, e.c_str());
    }
    else
        snprintf(b, sizeof b, "%s [%s] a=%lld b=%lld c=%lld", c.fn, c.fmt, (long long)c.a, (long long)c.b, (long long)c.c);
    return b;
}

// ---------------------------------------------------------------- failures / counters
struct failure_t
{
    std::string key, detail;
};
inline std::mutex mtx;
inline std::vector<failure_t> failures;
inline std::map<std::string, u64> failure_counts;
inline std::map<std::string, u64> counts; // check name -> observed events
inline std::map<std::string, std::set<u64>> states; // check name -> distinct abstract states
inline std::map<std::string, std::pair<double, std::string>> worst; // metric -> worst ratio to its bound
inline std::map<std::string, std::string> notes;
inline std::map<std::string, std::string> samples; // check name -> one observed event, written out
inline std::atomic<u64> total_failures{0};

template <typename... A>
std::string strf(const char* f, A... a)
{
    char b[1024];
    snprintf(b, sizeof b, f, a...);
    return b;
}
inline std::string str128(i128 v)
{
    if(v == 0)
        return "0";
    bool n = v < 0;
    u128 u = n ? (u128)0 - (u128)v : (u128)v;
    std::string s;
    while(u)
    {
        s += char('0' + (int)(u % 10));
        u /= 10;
    }
    if(n)
        s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}

inline void fail(const std::string& key, const std::string& detail)
{
    ++total_failures;
    std::lock_guard<std::mutex> l(mtx);
    u64& n = failure_counts[key];
    ++n;
    if(n <= 3 && failures.size() < 60)
        failures.push_back({key, detail});
}
inline bool too_many() { return total_failures.load(std::memory_order_relaxed) > 2000; }

// per worker, merged at the end of a parallel section
struct local_t
{
    std::map<std::string, u64> counts;
    std::map<std::string, std::set<u64>> states;
    std::map<std::string, std::pair<double, std::string>> worst;
    void merge()
    {
        std::lock_guard<std::mutex> l(mtx);
        for(auto& [k, v] : counts)
            vf::counts[k] += v;
        for(auto& [k, v] : states)
            vf::states[k].insert(v.begin(), v.end());
        for(auto& [k, v] : worst)
        {
            auto& w = vf::worst[k];
            if(v.first > w.first)
                w = v;
        }
        counts.clear();
        states.clear();
        worst.clear();
    }
};

// a cheap per-check monitor: events, distinct (sign, magnitude) bins, worst ratio of error to bound.
struct meter_t
{
    std::string name;
    u64 n = 0;
    std::vector<bool> bins;
    double w = -1;
    std::string wd;
    i128 sa = 0, sb = 0; // the latest sampled event
    explicit meter_t(std::string nm) : name(std::move(nm)), bins(132 * 132) {}
    static unsigned bin(i128 v)
    {
        unsigned s = v < 0;
        u128 u = s ? (u128)0 - (u128)v : (u128)v;
        unsigned m = 0;
        if(u >> 64)
            m = 65;
        else if((u64)u)
            m = 64 - __builtin_clzll((u64)u);
        return s * 66 + m;
    }
    void see(i128 a, i128 b = 0)
    {
        ++n;
        if((n & (n - 1)) == 0)
        {
            sa = a;
            sb = b;
        }
        bins[bin(a) * 132 + bin(b)] = true;
    }
    void ratio(double q, i64 a, i64 b = 0)
    {
        if(q > w)
        {
            w = q;
            wd = strf("a=%lld b=%lld", (long long)a, (long long)b);
        }
    }
    ~meter_t() { flush(); }
    void flush()
    {
        std::lock_guard<std::mutex> l(mtx);
        if(n)
            samples[name] = "a=" + str128(sa) + " b=" + str128(sb);
        counts[name] += n;
        n = 0;
        auto& st = states[name];
        for(size_t i = 0; i < bins.size(); ++i)
            if(bins[i])
                st.insert(i);
        if(w >= 0)
        {
            auto& x = worst[name];
            if(w > x.first)
                x = {w, wd};
        }
    }
};

// ---------------------------------------------------------------- signals, watchdog
inline char crash_path[4096];
inline void on_signal(int sig)
{
    // async-signal-unsafe formatting is acceptable here: the process is about to end.
    std::string s = strf("signal %d (%s) in ", sig, strsignal(sig)) + describe(*cur) + "\n";
    int fd = open(crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd >= 0)
    {
        (void)!write(fd, s.data(), s.size());
        close(fd);
    }
    (void)!write(2, s.data(), s.size());
    _exit(4);
}
inline void install_signals()
{
    static char stack[1 << 16];
    stack_t ss{};
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    for(int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGABRT})
    {
        struct sigaction sa{};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
}
// the code under test must not end the program
inline bool finished = false;
inline void on_exit_early()
{
    if(finished)
        return;
    std::string s = "the program was ended by exit in " + describe(*cur) + "\n";
    int fd = open(crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd >= 0)
    {
        (void)!write(fd, s.data(), s.size());
        close(fd);
    }
    (void)!write(2, s.data(), s.size());
    _exit(4);
}
inline std::atomic<bool> watch_stop{false};
inline void watchdog()
{
    u64 last[max_workers] = {};
    unsigned idle[max_workers] = {};
    while(!watch_stop)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(500));
        for(unsigned i = 0; i < max_workers; ++i)
        {
            if(!curs[i].active || curs[i].seq != last[i])
            {
                last[i] = curs[i].seq;
                idle[i] = 0;
                continue;
            }
            if(++idle[i] >= opt.hang_seconds * 2)
            {
                std::string s = strf("no progress for %u s in ", opt.hang_seconds) + describe(curs[i]) + "\n";
                int fd = open(crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
                if(fd >= 0)
                {
                    (void)!write(fd, s.data(), s.size());
                    close(fd);
                }
                (void)!write(2, s.data(), s.size());
                _exit(5);
            }
        }
    }
}

// ---------------------------------------------------------------- parallel sections
// body(worker rng, begin, end) handles the items [begin, end)
template <typename F>
void parallel(const char* name, u64 items, u64 chunk, F&& body)
{
    if(!opt.only.empty() && std::string(name).find(opt.only) == std::string::npos)
        return;
    std::atomic<u64> pos{0};
    std::vector<std::thread> ts;
    auto work = [&](unsigned id)
    {
        worker_id = id;
        cur = &curs[id];
        cur->active = true;
        for(;;)
        {
            u64 b = pos.fetch_add(chunk);
            if(b >= items || too_many())
                break;
            u64 e = std::min(items, b + chunk);
            VF_TRY
            {
                rng_t rng(mix(opt.seed * 1000003 + hash_str(name), b));
                body(rng, b, e);
            }
            VF_CATCH(fail(std::string(name) + ":unexpected exception", std::string(ex.what()) + " at " + describe(*cur)))
        }
        cur->active = false;
    };
    for(unsigned i = 0; i < opt.threads; ++i)
        ts.emplace_back(work, i + 1);
    for(auto& t : ts)
        t.join();
}

// a section on the calling thread
template <typename F>
void section(const char* name, F&& body)
{
    if(!opt.only.empty() && std::string(name).find(opt.only) == std::string::npos)
        return;
    cur->active = true;
    VF_TRY
    {
        rng_t rng(mix(opt.seed * 1000003 + hash_str(name), 0));
        body(rng);
    }
    VF_CATCH(fail(std::string(name) + ":unexpected exception", std::string(ex.what()) + " at " + describe(*cur)))
    cur->active = false;
}

// runs independent jobs (e.g. one per format) over the worker threads
using job_t = std::pair<std::string, std::function<void(rng_t&)>>;
inline void run_jobs(std::vector<job_t> jobs)
{
    std::atomic<size_t> pos{0};
    std::vector<std::thread> ts;
    auto work = [&](unsigned id)
    {
        worker_id = id;
        cur = &curs[id];
        cur->active = true;
        for(;;)
        {
            size_t i = pos++;
            if(i >= jobs.size() || too_many())
                break;
            if(!opt.only.empty() && jobs[i].first.find(opt.only) == std::string::npos)
                continue;
            VF_TRY
            {
                rng_t rng(mix(opt.seed * 1000003 + hash_str(jobs[i].first.c_str()), 0));
                jobs[i].second(rng);
            }
            VF_CATCH(fail(jobs[i].first + ":unexpected exception", std::string(ex.what()) + " at " + describe(*cur)))
        }
        cur->active = false;
    };
    for(unsigned i = 0; i < opt.threads; ++i)
        ts.emplace_back(work, i + 1);
    for(auto& t : ts)
        t.join();
}

// ---------------------------------------------------------------- formats
template <typename F>
struct fmt; // specialised once eirin is included (see formats.hpp)

template <typename T>
constexpr unsigned bits_of() { return sizeof(T) * 8; }
template <typename T>
constexpr i128 lo_of() { return (i128)std::numeric_limits<T>::min(); }
template <typename T>
constexpr i128 hi_of() { return (i128)std::numeric_limits<T>::max(); }
template <typename T>
constexpr bool fits(i128 v) { return v >= lo_of<T>() && v <= hi_of<T>(); }

// structured raw values of a format: powers of two, whole numbers, halves, multiples of pi/4, the ends of the range, each +-2
template <typename T>
std::vector<T> interesting(unsigned f, bool rich = true)
{
    std::set<i128> s;
    auto add = [&](i128 v, int d)
    {
        for(int k = -d; k <= d; ++k)
        {
            if(fits<T>(v + k))
                s.insert(v + k);
            if(fits<T>(-v + k))
                s.insert(-v + k);
        }
    };
    add(0, 3);
    for(unsigned k = 0; k < bits_of<T>(); ++k)
    {
        add((i128)1 << k, 1);
        if(rich && k > 0)
            add((i128)3 << (k - 1), 0);
    }
    for(int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 27, 31, 32, 64, 90, 100, 127, 128, 180, 181, 255, 256, 360, 512, 541, 766, 1000, 1024, 4096, 10000, 32767})
    {
        add((i128)n << f, rich ? 2 : 1);
        if(f)
            add(((i128)n << f) + ((i128)1 << (f - 1)), 1);
    }
    for(int n : {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 100})
    {
        // n * pi / 4
        long double p = 3.14159265358979323846264338327950288L * n / 4;
        long double sc = std::ldexp(1.0L, (int)f);
        if(p * sc < 9e18L)
            add((i128)(p * sc), rich ? 2 : 1);
    }
    add(hi_of<T>(), 3);
    add(lo_of<T>(), 3);
    for(i128 v : {(i128)0x5555555555555555ll, (i128)0x3333333333333333ll, (i128)0x0F0F0F0F0F0F0F0Fll})
        add(v & hi_of<T>(), 0);
    std::vector<T> r;
    for(i128 v : s)
        r.push_back((T)v);
    return r;
}

// random raw value: uniform, log-uniform magnitude, near an interesting value, small
template <typename T>
T random_raw(rng_t& g, const std::vector<T>& base)
{
    u64 r = g.next();
    u64 v = g.next();
    switch(r & 7)
    {
    case 0:
    case 1: return (T)v;
    case 2:
    case 3:
    case 4:
        {
            u64 m = v >> (64 - 1 - ((r >> 8) % bits_of<T>())); // 1..bits random bits
            T t = (T)m;
            if((r >> 20) & 1)
                t = (T)(0 - (u64)t);
            return t;
        }
    case 5: return (T)((u64)base[(r >> 8) % base.size()] + (v % 9) - 4);
    case 6: return base[(r >> 8) % base.size()];
    default:
        {
            // runs of ones and zeros
            unsigned p = (r >> 8) % bits_of<T>(), q = (r >> 16) % bits_of<T>();
            u64 m = ((u64)1 << p) - 1, n = ((u64)1 << q) - 1;
            return (T)(m ^ n ^ (((r >> 24) & 1) ? ~(u64)0 : 0));
        }
    }
}

// ---------------------------------------------------------------- result file
inline std::string jstr(const std::string& s)
{
    std::string r = "\"";
    char b[8];
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\')
        {
            r += '\\';
            r += (char)c;
        }
        else if(c < 32 || c > 126)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += (char)c;
    }
    return r + "\"";
}

inline int finish()
{
    watch_stop = true;
    finished = true;
    FILE* f = fopen(opt.out.c_str(), "w");
    if(!f)
        return 3;
    fprintf(f, "{\"failures\":[");
    bool first = true;
    for(auto& x : failures)
    {
        fprintf(f, "%s{\"key\":%s,\"detail\":%s,\"count\":%llu}", first ? "" : ",", jstr(x.key).c_str(), jstr(x.detail).c_str(), (unsigned long long)failure_counts[x.key]);
        first = false;
    }
    fprintf(f, "],\"counts\":{");
    first = true;
    for(auto& [k, v] : counts)
    {
        fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
        first = false;
    }
    fprintf(f, "},\"states\":{");
    first = true;
    for(auto& [k, v] : states)
    {
        fprintf(f, "%s%s:%zu", first ? "" : ",", jstr(k).c_str(), v.size());
        first = false;
    }
    fprintf(f, "},\"worst\":{");
    first = true;
    for(auto& [k, v] : worst)
    {
        fprintf(f, "%s%s:[%.6g,%s]", first ? "" : ",", jstr(k).c_str(), v.first, jstr(v.second).c_str());
        first = false;
    }
    fprintf(f, "},\"notes\":{");
    first = true;
    for(auto& [k, v] : notes)
    {
        fprintf(f, "%s%s:%s", first ? "" : ",", jstr(k).c_str(), jstr(v).c_str());
        first = false;
    }
    fprintf(f, "},\"samples\":{");
    first = true;
    for(auto& [k, v] : samples)
    {
        fprintf(f, "%s%s:%s", first ? "" : ",", jstr(k).c_str(), jstr(v).c_str());
        first = false;
    }
    fprintf(f, "},\"total_failures\":%llu}\n", (unsigned long long)total_failures.load());
    fclose(f);
    return failures.empty() ? 0 : 1;
}

inline void parse_args(int argc, char** argv)
{
    unsigned hc = std::thread::hardware_concurrency();
    opt.threads = std::clamp(hc ? hc : 4u, 1u, 16u);
    for(int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if(k == "--seed")
            opt.seed = strtoull(v.c_str(), nullptr, 10);
        else if(k == "--tier")
        {
            opt.thorough = v == "thorough";
            opt.tiny = v == "tiny";
        }
        else if(k == "--out")
            opt.out = v;
        else if(k == "--threads")
            opt.threads = std::max(1, atoi(v.c_str()));
        else if(k == "--only")
            opt.only = v;
        else if(k == "--dump")
            opt.dump = v;
        else if(k == "--hang")
            opt.hang_seconds = atoi(v.c_str());
    }
    snprintf(crash_path, sizeof crash_path, "%s.crash", opt.out.c_str());
}
} // namespace vf

#ifndef VF_NO_MAIN
void workload();
int main(int argc, char** argv)
{
    vf::parse_args(argc, argv);
#ifndef VF_SANITIZED
    vf::install_signals();
#endif
#ifndef VF_NO_TRACE
    std::thread w(vf::watchdog);
    w.detach();
#endif
    std::atexit(vf::on_exit_early);
    std::at_quick_exit(vf::on_exit_early);
    workload();
    return vf::finish();
}
#endif
