#define VF_QUICK 30
#ifndef PART
#    define PART 0
#endif
// C21: random engines: reproducible sequences, discard, equality, copies, ranges, seeding, serialisation.
#include "formats.hpp"
#include <random>
#include <sstream>
#include <iomanip>
using namespace vf;

// the seed and the position an engine starts from unless told otherwise
static constexpr uint64_t ref_seed = 0x89ABCD, ref_start = 0;
// the reference sequence: output number k of a seed is a fixed function of (seed, start state + k)
template <typename E>
struct model
{
    using U = typename E::result_type;
    U seed, state;
    explicit model(U s) : seed(s), state(E::init_state) {}
    U next();
};
static uint32_t ref32(uint32_t seed, uint32_t n)
{
    uint32_t v = n * 0xB5297A4Du + seed;
    v = (v ^ (v >> 8)) + 0x68E31DA4u;
    v = (v ^ (v << 8)) * 0x92D68CA2u;
    v = (v ^ (v >> 8)) * 0x1B56C4E9u;
    return (v & 0x7FFFFFFEu) ^ (v >> 8);
}
static uint64_t ref64(uint64_t seed, uint64_t n)
{
    uint64_t v = n * 0x5851F42D4C957F2Dull + seed;
    v = (v ^ (v >> 8)) + 0x9E3779B97F4A7C15ull;
    v = (v ^ (v << 8)) * 0xBF58476D1CE4E5B9ull;
    v = (v ^ (v >> 8)) * 0x94D049BB133111EBull;
    return (v & 0x7FFFFFFEull) ^ (v >> 8);
}
template <typename U>
U ref(U seed, U n)
{
    if constexpr(sizeof(U) == 4)
        return ref32(seed, n);
    else
        return ref64(seed, n);
}

template <typename U>
U pick_seed(rng_t& g, U def)
{
    switch(g.below(6))
    {
    case 0: return (U)g.below(10);
    case 1: return def;
    case 2: return (U)(0 - g.below(10));
    case 3: return (U)((U)1 << g.below(sizeof(U) * 8));
    default: return (U)g.next();
    }
}

template <typename E>
struct pcg_watch
{
    using U = typename E::result_type;
    const char* nm;
    meter_t seq, ops, text, range, bits;
    explicit pcg_watch(const char* n)
        : nm(n), seq(std::string("sequence ") + n), ops(std::string("operations ") + n), text(std::string("serialised ") + n), range(std::string("range ") + n), bits(std::string("bits ") + n)
    {
    }
    void bad(const char* what, std::string d) { fail(std::string(what) + " " + nm, d); }

    // a random history of operations, followed by a reference (seed, position); every observable is compared
    void history(rng_t& g)
    {
        U seed = pick_seed<U>(g, E::default_seed);
        std::string h;
        bool def = g.chance(1, 8);
        E x = def ? E() : E(seed);
        if(def)
            seed = (U)ref_seed;
        U pos = (U)ref_start;
        h = "seed " + std::to_string(seed);
        unsigned n = 1 + (unsigned)g.below(40);
        for(unsigned i = 0; i < n; ++i)
        {
            at("engine history", nm, (i64)seed, (i64)pos, i);
            switch(g.below(9))
            {
            case 0:
                seed = pick_seed<U>(g, E::default_seed);
                x.seed(seed);
                pos = (U)ref_start;
                h += " seed(" + std::to_string(seed) + ")";
                break;
            case 1:
                x.seed();
                seed = (U)ref_seed;
                pos = (U)ref_start;
                h += " seed()";
                break;
            case 2:
                {
                    unsigned long long k = g.chance(1, 2) ? g.below(1000) : g.next() >> g.below(64);
                    if(g.chance(1, 3)) // to just before a power of two, or the end of the period
                        k = (U)(((U)1 << g.below(sizeof(U) * 8)) * (U)g.below(2) - (U)g.below(4) - pos);
                    x.discard(k);
                    pos = (U)(pos + (U)k);
                    h += " discard(" + std::to_string(k) + ")";
                    break;
                }
            case 3:
                {
                    E y = x; // a copy continues alike and leaves the original alone
                    ops.see((i128)seed, (i128)pos);
                    if(!(x == y) || x != y)
                        bad("copy equal", h);
                    U a = y();
                    if(a != ref<U>(seed, pos))
                        bad("copy output", h);
                    if(x == y || !(x != y))
                        bad("advanced copy differs", h);
                    h += " copy";
                    break;
                }
            case 4:
                {
                    E y(seed); // the same seed and position are reached by another way
                    y.discard((U)(pos - (U)E::init_state));
                    ops.see((i128)seed, (i128)pos);
                    if(!(x == y) || (x != y))
                        bad("equality", h);
                    E z((U)(seed + 1 + g.below(3)));
                    z.discard((U)(pos - (U)E::init_state));
                    if(x == z || !(x != z))
                        bad("inequality of seeds", h);
                    break;
                }
            case 5:
                {
                    std::vector<uint32_t> words;
                    for(unsigned k = 0, c = (unsigned)g.below(5); k < c; ++k)
                        words.push_back((uint32_t)g.next());
                    std::seed_seq s1(words.begin(), words.end()), s2(words.begin(), words.end());
                    x.seed(s1);
                    E y;
                    y.discard(g.below(100));
                    y.seed(s2);
                    ops.see((i128)words.size());
                    if(!(x == y))
                        bad("seed sequence determinism", h);
                    // learn where it is through the serialised form
                    std::ostringstream os;
                    os << x;
                    std::istringstream is(os.str());
                    is >> seed >> pos;
                    std::seed_seq s3(words.begin(), words.end());
                    std::vector<U> w(2);
                    s3.generate(w.begin(), w.end());
                    if(seed != w[0] || pos != w[1])
                        bad("seed sequence words", h);
                    h += " seed_seq";
                    break;
                }
            case 6:
                {
                    std::ostringstream os;
                    os << std::hex << std::showbase << std::setfill('*');
                    if(g.chance(1, 2))
                        os << std::oct << std::right << std::showpos << std::uppercase;
                    auto fl = os.flags();
                    os << x;
                    text.see((i128)seed, (i128)pos);
                    std::string want = std::to_string(seed) + " " + std::to_string(pos);
                    if(os.str() != want)
                        bad("serialised text", "got \"" + os.str() + "\" expected \"" + want + "\" after " + h);
                    if(os.flags() != fl || os.fill() != '*')
                        bad("stream state restored", h);
                    break;
                }
            default:
                for(unsigned k = 0, c = 1 + (unsigned)g.below(8); k < c; ++k)
                {
                    U a = x();
                    seq.see((i128)seed, (i128)pos);
                    U want = ref<U>(seed, pos);
                    if(a != want)
                        bad("sequence", h + ": got " + std::to_string(a) + " expected " + std::to_string(want));
                    if(a < E::min() || a > E::max())
                        bad("range", h + ": got " + std::to_string(a));
                    pos = (U)(pos + 1);
                }
                h += " ()";
            }
            if(h.size() > 300)
                h = "..." + h.substr(h.size() - 250);
        }
    }
    // engines are equal exactly when seed and position are
    void equality(rng_t& g)
    {
        U seeds[24], poss[24];
        for(int i = 0; i < 24; ++i)
        {
            seeds[i] = i < 8 ? (U)i : i < 16 ? pick_seed<U>(g, E::default_seed) : (U)(seeds[i - 8] ^ ((U)1 << g.below(sizeof(U) * 8)));
            poss[i] = i < 8 ? (U)i : i < 16 ? (U)(g.next() >> g.below(64)) : (U)(poss[i - 8] ^ ((U)1 << g.below(sizeof(U) * 8)));
        }
        auto at_pos = [](U s, U p)
        {
            E x(s);
            x.discard((U)(p - (U)E::init_state));
            return x;
        };
        std::vector<std::pair<U, U>> ids;
        std::vector<E> es;
        for(int i = 0; i < 24; ++i)
            for(int j = 0; j < 24; j += i < 8 ? 1 : 3)
            {
                ids.push_back({seeds[i], poss[j]});
                es.push_back(at_pos(seeds[i], poss[j]));
            }
        // and the same numbers the other way round
        for(int i = 0; i < 24; ++i)
        {
            ids.push_back({poss[i], seeds[i]});
            es.push_back(at_pos(poss[i], seeds[i]));
        }
        for(size_t i = 0; i < es.size(); ++i)
            for(size_t j = 0; j < es.size(); ++j)
            {
                at("engine equality", nm, (i64)i, (i64)j);
                ops.see((i128)ids[i].first, (i128)ids[j].second);
                bool want = ids[i] == ids[j];
                if((es[i] == es[j]) != want || (es[i] != es[j]) == want)
                    bad("equality of engines", strf("seed %llu position %llu and seed %llu position %llu", (unsigned long long)ids[i].first, (unsigned long long)ids[i].second, (unsigned long long)ids[j].first, (unsigned long long)ids[j].second));
            }
    }
    // a stretch of the period, output for output
    void stretch(U seed, U begin, u64 len)
    {
        E x(seed);
        x.discard((U)(begin - (U)E::init_state));
        at("engine period", nm, (i64)seed, (i64)begin);
        u64 wrong = 0;
        U n = begin, first = 0;
        for(u64 i = 0; i < len; ++i, ++n)
        {
            const bool ok = x() == ref<U>(seed, n);
            if(!ok && !wrong)
                first = n;
            wrong += !ok;
        }
        seq.n += len;
        seq.see((i128)seed, (i128)begin);
        if(wrong)
            bad("period", "seed " + std::to_string(seed) + ": " + std::to_string(wrong) + " outputs differ, first at position " + std::to_string(first));
    }
    // ranges, and each bit of the range is used about half of the time
    void spread(rng_t& g)
    {
        static_assert(std::uniform_random_bit_generator<E>);
        u64 n = reps(2000000, 60000);
        E x(pick_seed<U>(g, E::default_seed));
        std::vector<u64> ones(sizeof(U) * 8);
        U lo = E::max(), hi = E::min();
        for(u64 i = 0; i < n; ++i)
        {
            U a = x();
            range.see((i128)a);
            if(a < E::min() || a > E::max())
                bad("range", "got " + std::to_string(a));
            lo = std::min(lo, a);
            hi = std::max(hi, a);
            for(unsigned b = 0; b < ones.size(); ++b)
                ones[b] += (a >> b) & 1;
        }
        if(n < 10000)
            return;
        for(unsigned b = 0; b < ones.size(); ++b)
        {
            bits.see((i128)ones[b], b);
            bool used = (E::max() >> b) & 1;
            double p = (double)ones[b] / (double)n;
            if(used ? !(p > 0.35 && p < 0.65) : p != 0)
                bad("bit balance", strf("bit %u is set in %.3f of the outputs", b, p));
        }
        if((double)lo > (double)E::max() * 0.01 || (double)hi < (double)E::max() * 0.99)
            bad("spread", strf("%llu draws within [%llu, %llu] of [0, %llu]", (unsigned long long)n, (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)E::max()));
    }
};

// the adapter presents the outputs of its engine as raw values
template <typename F, typename E>
void adapter(rng_t& g, const char* nm)
{
    using A = eirin::fixed_random_engine_adapter<F, E>;
    using M = fmt<F>;
    using T = typename M::store;
    using S = typename E::result_type;
    constexpr bool cheap_discard = std::is_same_v<E, eirin::pcg2014> || std::is_same_v<E, eirin::pcg2014_64>;
    meter_t m(std::string("adapter ") + nm + " " + M::name());
    auto bad = [&](const char* w, std::string d) { fail(std::string("adapter ") + w + " " + nm + " " + M::name(), d); };
    if(A::min().internal_value() != std::numeric_limits<T>::min() || A::max().internal_value() != std::numeric_limits<T>::max())
        bad("range", "min / max");
    for(u64 r = 0, n = reps(20000, 600); r < n; ++r)
    {
        A x;
        E ref; // a fresh adapter starts as a fresh engine, whatever other adapters did before
        std::string h;
        for(unsigned i = 0, c = 1 + (unsigned)g.below(20); i < c; ++i)
        {
            at("adapter history", nm, (i64)r, i);
            switch(g.below(6))
            {
            case 0:
                {
                    S s = pick_seed<S>(g, E::default_seed);
                    x.seed(s);
                    ref.seed(s);
                    h += " seed(" + std::to_string(s) + ")";
                    break;
                }
            case 1:
                x.seed();
                ref.seed();
                h += " seed()";
                break;
            case 2:
                {
                    unsigned long long k = cheap_discard && g.chance(1, 3) ? g.next() >> g.below(64) : g.below(300);
                    x.discard(k);
                    ref.discard(k);
                    h += " discard";
                    break;
                }
            case 3:
                {
                    std::seed_seq a{(uint32_t)r, (uint32_t)i}, b{(uint32_t)r, (uint32_t)i};
                    x.seed(a);
                    ref.seed(b);
                    h += " seed_seq";
                    break;
                }
            case 4:
                {
                    A y = x;
                    m.see(4);
                    if(!(x == y) || x != y)
                        bad("copy equal", h);
                    E e2 = ref;
                    if((i128)y().internal_value() != (i128)(T)e2())
                        bad("copy output", h);
                    if(x == y)
                        bad("advanced copy differs", h);
                    std::ostringstream s1, s2;
                    s1 << x;
                    s2 << ref;
                    if(s1.str() != s2.str())
                        bad("serialised text", h);
                    break;
                }
            default:
                for(int k = 0; k < 4; ++k)
                {
                    auto a = ref();
                    F v = x();
                    m.see((i128)v.internal_value());
                    if((i128)v.internal_value() != (i128)(T)a)
                        bad("output", h + ": raw " + str128((i128)v.internal_value()) + " from engine output " + std::to_string(a));
                }
                h += " ()";
            }
            if(h.size() > 300)
                h = "..." + h.substr(h.size() - 250);
        }
    }
}

void workload()
{
    std::vector<job_t> jobs;
    auto go = [&]<typename E>(const char* nm)
    {
        for(int j = 0; j < 4; ++j)
            jobs.push_back({std::string("history ") + nm + " " + std::to_string(j), [nm](rng_t& g)
                            {
                                pcg_watch<E> w(nm);
                                for(u64 i = 0, n = reps(400000, 8000); i < n && !too_many(); ++i)
                                    w.history(g);
                                for(u64 i = 0, n = reps(60, 3); i < n && !too_many(); ++i)
                                    w.equality(g);
                            }});
        for(int j = 0; j < 4; ++j)
            jobs.push_back({std::string("spread ") + nm + " " + std::to_string(j), [nm](rng_t& g)
                            {
                                pcg_watch<E> w(nm);
                                for(int i = 0; i < 4; ++i)
                                    w.spread(g);
                            }});
    };
#ifndef VF_SANITIZED
    // the whole period of the 32 bit engine, and stretches of the other one
    const u64 rounds = opt.thorough ? 12 : 1;
    for(u64 j = 0; j < 64 * rounds; ++j)
        jobs.push_back({"period pcg2014 " + std::to_string(j), [j](rng_t&)
                        {
                            pcg_watch<eirin::pcg2014> w("pcg2014");
                            const u64 round = j / 64;
                            w.stretch(round == 0 ? eirin::pcg2014::default_seed : (uint32_t)mix(opt.seed, round), (uint32_t)(j % 64 << 26), 1ull << 26);
                        }});
    for(u64 j = 0; j < 64 * rounds; ++j)
        jobs.push_back({"period pcg2014_64 " + std::to_string(j), [j](rng_t& g)
                        {
                            pcg_watch<eirin::pcg2014_64> w("pcg2014_64");
                            w.stretch(pick_seed<u64>(g, eirin::pcg2014_64::default_seed), ((u64)1 << j % 64) - (1u << 21), 1u << 22);
                        }});
#endif
    go.template operator()<eirin::pcg2014>("pcg2014");
    go.template operator()<eirin::pcg2014_64>("pcg2014_64");
#define AD(F, E) jobs.push_back({std::string("adapter " #E) + fmt<F>::name(), [](rng_t& g) { adapter<F, E>(g, #E); }})
    AD(eirin::fixed32, eirin::mt19937);
    AD(eirin::fixed32, eirin::mt19937_64);
    AD(eirin::fixed64, eirin::mt19937_64);
    AD(eirin::fixed64, eirin::mt19937);
    AD(eirin::fixed32, eirin::pcg2014);
    AD(eirin::fixed32, eirin::pcg2014_64);
    AD(eirin::fixed64, eirin::pcg2014_64);
    AD(eirin::fixed32, eirin::minstd_rand);
    AD(eirin::fixed32, eirin::minstd_rand0);
    AD(S16<8>, eirin::mt19937);
    AD(U8<4>, eirin::mt19937);
    AD(S8<7>, eirin::pcg2014_64);
    AD(U16<15>, eirin::minstd_rand);
    AD(S64<62>, eirin::mt19937_64);
    AD(U64<32>, eirin::mt19937_64);
    AD(S32W<16>, eirin::mt19937);
    AD(U32<16>, eirin::pcg2014);
    run_jobs(std::move(jobs));
}
