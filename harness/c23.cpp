// C23: one input, one result: over repeated calls, call orders, threads, floating point rounding modes; the driver also
// compares the digests of the same run between compilers, optimisation levels and language options.
#include "ops.hpp"
#include <cfenv>
using namespace vf;

static u64 evaluate(const op_t& o, u64 i)
{
    rng_t g(mix(opt.seed * 1000003 + hash_str(o.name.c_str()), i));
    return o.eval(g);
}

void workload()
{
    auto ops = all_ops();
    const u64 n = reps(300000, 12000);
    std::vector<std::vector<u64>> res(ops.size(), std::vector<u64>(n));

    if(!opt.dump.empty())
    {
        FILE* f = fopen(opt.dump.c_str(), "w");
        for(auto& o : ops)
            if(o.name == opt.only)
                for(u64 i = 0; i < n; ++i)
                {
                    u64 h = evaluate(o, i);
                    fprintf(f, "%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)h, describe(*cur).c_str());
                }
        fclose(f);
        return;
    }
    // in order
    {
        std::vector<job_t> jobs;
        for(size_t k = 0; k < ops.size(); ++k)
            jobs.push_back({ops[k].name, [&, k](rng_t&)
                            {
                                meter_t m("first " + ops[k].name);
                                for(u64 i = 0; i < n; ++i)
                                {
                                    res[k][i] = evaluate(ops[k], i);
                                    m.see((i128)res[k][i], (i128)(i & 63));
                                }
                            }});
        run_jobs(std::move(jobs));
    }
    for(size_t k = 0; k < ops.size(); ++k)
    {
        fold_t h;
        for(u64 x : res[k])
            h.add(x);
        notes["digest " + ops[k].name] = strf("%016llx", (unsigned long long)h.h);
    }
    // again, operations interleaved at random, from all threads, under each rounding mode
    const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    const char* names[] = {"again", "rounding up", "rounding down", "rounding to zero"};
    for(int md = 0; md < 4; ++md)
        parallel(names[md], ops.size() * n, 512, [&](rng_t& g, u64 b, u64 e)
                 {
                     meter_t m(names[md]);
                     std::fesetround(modes[md]);
                     for(u64 i = b; i < e; ++i)
                     {
                         size_t k = g.below(ops.size());
                         u64 j = g.below(n);
                         if(md && ops[k].fp)
                             continue;
                         u64 h = evaluate(ops[k], j);
                         m.see((i128)k, (i128)j);
                         if(h != res[k][j])
                         {
                             std::fesetround(FE_TONEAREST);
                             fail(std::string("repeatable: ") + ops[k].name, std::string(names[md]) + ": another result for " + describe(*cur));
                             std::fesetround(modes[md]);
                         }
                     }
                     std::fesetround(FE_TONEAREST);
                 });
}
