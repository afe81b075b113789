// C25: unsynchronised use from many threads, first uses included.  Built with -fsanitize=thread and run many times;
// the race detector watches, and every result is compared with the one computed by a single thread afterwards.
#include "ops.hpp"
#ifndef VF_NO_SIMD
#    include <eirin/ext/simd_math.hpp>
#endif
using namespace vf;

struct first_t
{
    const char* name;
    std::function<u64()> use;
};
static eirin::fixed64 f64v(double d) { return eirin::fixed64(d); }

static std::vector<first_t> firsts()
{
    std::vector<first_t> v;
#ifndef VF_NO_SIMD
    using P = eirin::simd::platform_support;
    v.push_back({"sse2", [] { return (u64)P::supports_sse2(); }});
    v.push_back({"avx", [] { return (u64)P::supports_avx(); }});
    v.push_back({"avx2", [] { return (u64)P::supports_avx2() * 2 + P::supports_sse4_2(); }});
    v.push_back({"avx512", [] { return (u64)P::supports_avx512_f() * 2 + P::supports_avx512_dq(); }});
    v.push_back({"reduce four", []
                 {
                     auto r = eirin::simd::simd_reduce_angle({f64v(1), f64v(7), f64v(-20), f64v(1000)});
                     fold_t h;
                     for(auto& x : r)
                         h.add(x);
                     return h.h;
                 }});
    v.push_back({"reduce two", []
                 {
                     auto r = eirin::simd::simd_reduce_angle_2({f64v(30), f64v(-7)});
                     fold_t h;
                     for(auto& x : r)
                         h.add(x);
                     return h.h;
                 }});
#endif
    v.push_back({"table 512", [] { fold_t h; h.add(eirin::util::lut::lut_calc_sin<512>(f64v(1.25))); h.add(eirin::util::lut::lut_calc_sin<512>(f64v(-2.5))); return h.h; }});
    v.push_back({"table 64", [] { fold_t h; h.add(eirin::util::lut::lut_calc_sin<64>(f64v(0.5))); h.add(eirin::util::lut::lut_calc_sin<64>(f64v(3))); return h.h; }});
    v.push_back({"table 100", [] { fold_t h; h.add(eirin::util::lut::lut_calc_sin<100>(f64v(9.5))); return h.h; }});
    v.push_back({"adapter mt", []
                 {
                     eirin::fixed_random_engine_adapter<eirin::fixed32, eirin::mt19937> a;
                     fold_t h;
                     h.add(a());
                     h.add(a());
                     return h.h;
                 }});
    v.push_back({"adapter pcg", []
                 {
                     eirin::fixed_random_engine_adapter<eirin::fixed64, eirin::pcg2014_64> a, b;
                     fold_t h;
                     h.add(a());
                     h.add(b());
                     h.add(a());
                     return h.h;
                 }});
    v.push_back({"adapter minstd", []
                 {
                     eirin::fixed_random_engine_adapter<eirin::fixed32, eirin::minstd_rand> a;
                     fold_t h;
                     h.add(a());
                     return h.h;
                 }});
    v.push_back({"cordic", []
                 {
                     fold_t h;
                     h.add(eirin::cordic_sine(f64v(1.5)));
                     h.add(eirin::cordic_sine(eirin::fixed32(-2)));
                     return h.h;
                 }});
    v.push_back({"print", []
                 {
                     std::ostringstream os;
                     os << f64v(1.5) << ' ' << eirin::fixed32(-3.25);
                     fold_t h;
                     h.add(os.str());
                     return h.h;
                 }});
    return v;
}

void workload()
{
    auto fs = firsts();
    auto ops = all_ops();
    const unsigned T = 2 + (unsigned)(opt.seed % 7);
    const u64 n = opt.thorough ? 1500 : opt.tiny ? 60 : 300;
    std::vector<std::vector<u64>> got(T, std::vector<u64>(fs.size()));
    struct ev
    {
        unsigned op;
        u64 idx, h;
    };
    std::vector<std::vector<ev>> log(T);
    // arrival orders; relaxed, so that the bookkeeping orders nothing
    std::vector<std::atomic<unsigned>> arrive(fs.size());
    std::vector<std::vector<unsigned>> rank(T, std::vector<unsigned>(fs.size()));
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    for(unsigned t = 0; t < T; ++t)
        ts.emplace_back([&, t]
                        {
                            rng_t g(mix(opt.seed, 1000 + t));
                            std::vector<unsigned> order(fs.size());
                            for(unsigned i = 0; i < order.size(); ++i)
                                order[i] = i;
                            // half of the runs: all threads meet at the same first use; the others: each in its own order
                            rng_t common(mix(opt.seed, 7));
                            rng_t& src = opt.seed % 2 ? g : common;
                            for(unsigned i = (unsigned)order.size(); i > 1; --i)
                                std::swap(order[i - 1], order[src.below(i)]);
                            ready.fetch_add(1, std::memory_order_relaxed);
                            while(ready.load(std::memory_order_relaxed) < T)
                                ;
                            for(unsigned k : order)
                            {
                                // injected delays
                                volatile u64 spin = 0;
                                for(u64 d = g.chance(1, 3) ? g.below(3000) : 0; d; --d)
                                    spin = d;
                                if(g.chance(1, 8))
                                    std::this_thread::yield();
                                rank[t][k] = arrive[k].fetch_add(1, std::memory_order_relaxed);
                                got[t][k] = fs[k].use();
                            }
                            for(u64 i = 0; i < n; ++i)
                                for(unsigned r = 0; r < 4; ++r)
                                {
                                    unsigned k = (unsigned)g.below(ops.size());
                                    u64 j = g.below(200);
                                    rng_t in(mix(opt.seed * 1000003 + hash_str(ops[k].name.c_str()), j));
                                    log[t].push_back({k, j, ops[k].eval(in)});
                                }
                        });
    for(auto& t : ts)
        t.join();
    for(unsigned k = 0; k < fs.size(); ++k)
    {
        u64 want = fs[k].use(), order = 0;
        for(unsigned t = 0; t < T; ++t)
        {
            counts[std::string("first use ") + fs[k].name]++;
            order = order * 9 + rank[t][k];
            if(got[t][k] != want)
                fail(std::string("first use ") + fs[k].name, strf("thread %u of %u got another result", t, T));
        }
        states["arrival orders"].insert(mix(order * 16 + k, T));
        samples[std::string("first use ") + fs[k].name] = strf("%u threads, arrival order code %llu", T, (unsigned long long)order);
    }
    for(unsigned t = 0; t < T; ++t)
        for(auto& e : log[t])
        {
            counts["concurrent calls"]++;
            states["concurrent operations"].insert(e.op * 1000 + e.idx);
            rng_t in(mix(opt.seed * 1000003 + hash_str(ops[e.op].name.c_str()), e.idx));
            if(ops[e.op].eval(in) != e.h)
                fail("concurrent " + ops[e.op].name, strf("evaluation %llu: another result alone", (unsigned long long)e.idx));
        }
    samples["concurrent calls"] = strf("%u threads, %llu calls each", T, (unsigned long long)n * 4);
}
