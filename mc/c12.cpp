// C12: parallel loops.  Every loop function x stride x number of workers x range, under every schedule within a bound: each item
// exactly once, one thread per worker number, worker numbers below the concurrency level, everything done on return, right sums.
#include "gates.hpp"
#include "schedrun.hpp"
#include "common/parallel_for.hpp"
#include "statevector.hpp"
#include <future>
using namespace mc;
using Qrack::ParallelFor;

struct Loop {
    std::string name;
    // runs the loop with the given body
    std::function<void(ParallelFor&, Qrack::ParallelFunc)> run;
    std::vector<u64> want; // the items
};
static std::vector<Loop> loops(bool thorough)
{
    std::vector<Loop> L;
    auto add = [&](const std::string& nm, std::function<void(ParallelFor&, Qrack::ParallelFunc)> f, std::vector<u64> w) { L.push_back({ nm, f, w }); };
    const u64 top = thorough ? 9 : 7;
    for (u64 b : { 0ULL, 1ULL, 3ULL })
        for (u64 n = 0; n <= top; ++n) {
            std::vector<u64> w;
            for (u64 i = 0; i < n; ++i)
                w.push_back(b + i);
            add(fmt("par_for(%llu,%llu)", b, b + n), [=](ParallelFor& p, Qrack::ParallelFunc f) { p.par_for(b, b + n, f); }, w);
            std::vector<u64> w2;
            for (u64 i = 0; i < n; ++i)
                w2.push_back(3 * (b + i) + 1);
            if (b < 2)
                add(fmt("par_for_inc(%llu,%llu,3i+1)", b, n), [=](ParallelFor& p, Qrack::ParallelFunc f) { p.par_for_inc(b, n, [](const bitCapIntOcl& i) { return 3 * i + 1; }, f); }, w2);
        }
    for (int q = 1; q <= 4; ++q) {
        const u64 end = 1ULL << q;
        for (int s = 0; s < q; ++s)
            for (int w = 1; s + w <= q; ++w) {
                std::vector<u64> want;
                const u64 m = ((1ULL << w) - 1) << s;
                for (u64 i = 0; i < end; ++i)
                    if (!(i & m))
                        want.push_back(i);
                add(fmt("par_for_skip(0,%llu,%llu,%d)", end, 1ULL << s, w), [=](ParallelFor& p, Qrack::ParallelFunc f) { p.par_for_skip(0, end, 1ULL << s, w, f); }, want);
            }
        for (u64 m = 1; m < end; ++m) {
            std::vector<u64> want;
            std::vector<bitCapIntOcl> pw;
            for (u64 i = 0; i < end; ++i)
                if (!(i & m))
                    want.push_back(i);
            for (int i = 0; i < q; ++i)
                if (m >> i & 1)
                    pw.push_back(1ULL << i);
            add(fmt("par_for_mask(0,%llu,bits of %llu)", end, m), [=](ParallelFor& p, Qrack::ParallelFunc f) { p.par_for_mask(0, end, pw, f); }, want);
        }
    }
    for (u64 sub = 0; sub < (thorough ? 128 : 32); ++sub) {
        std::set<bitCapIntOcl> S;
        std::vector<bitCapIntOcl> V;
        std::vector<u64> want;
        for (u64 i = 0; i < 7; ++i)
            if (sub >> i & 1)
                S.insert(3 * i), V.push_back(3 * i), want.push_back(3 * i);
        std::reverse(V.begin(), V.end());
        add(fmt("par_for_set(set %llu)", sub), [=](ParallelFor& p, Qrack::ParallelFunc f) { p.par_for_set(S, f); }, want);
        add(fmt("par_for_set(vector %llu)", sub), [=](ParallelFor& p, Qrack::ParallelFunc f) { p.par_for_set(V, f); }, want);
    }
    for (u64 lo = 1; lo < 8; ++lo)
        for (u64 hi = 1; hi < 8; ++hi) {
            std::vector<bitCapIntOcl> A, B;
            std::vector<u64> want;
            for (u64 i = 0; i < 3; ++i) {
                if (lo >> i & 1)
                    A.push_back(i);
                if (hi >> i & 1)
                    B.push_back(i);
            }
            for (u64 b : B)
                for (u64 a : A)
                    want.push_back(a | b << 2);
            add(fmt("par_for_sparse_compose(%llu,%llu)", lo, hi), [=](ParallelFor& p, Qrack::ParallelFunc f) { p.par_for_sparse_compose(A, B, 2, f); }, want);
        }
    return L;
}

static void setup(ParallelFor& p, unsigned cores) { p.SetConcurrencyLevel(cores); }

static Suite loopSuite(const char* stride, unsigned cores, const Bounds& b, bool thorough)
{
    Suite s;
    s.name = fmt("loops/stride 2^%s, %u workers/%s%d", stride, cores, b.delays ? "d" : "p", b.preemptions);
    s.env = { { "QRACK_PSTRIDEPOW", stride } };
    s.hangSeconds = 300;
    auto L = std::make_shared<std::vector<Loop>>(loops(thorough));
    s.count = L->size() * 2;
    s.init = [=] {
        mcCores = cores;
        for (int k = 0; k < 2; ++k) // (the unwinder's first use takes locks of its own)
            try {
                std::async(std::launch::async, [] { throw std::runtime_error("warm up"); }).get();
            } catch (const std::runtime_error&) {
            }
    };
    s.run = [=](u64 i) {
        mcCores = cores;
        const Loop& l = (*L)[i / 2];
        const bool throws = i % 2; // (an exception of one item comes out, when all workers are done)
        if (throws && l.want.empty())
            return;
        under(b, [&] {
            ParallelFor p;
            setup(p, cores);
            MC_CHECK(p.GetConcurrencyLevel() == cores, "the concurrency level is %u, not %u", p.GetConcurrencyLevel(), cores);
            // (plain memory: two threads at one item, or at one worker number, are a data race)
            int seen[64] = {}, worker[8] = {};
            std::atomic<int> stray{ 0 }, inside{ 0 };
            const u64 bad = throws ? l.want[l.want.size() / 2] : ~0ULL;
            bool caught = false;
            try {
                l.run(p, [&](const bitCapIntOcl& k, const unsigned& cpu) {
                    if (k >= 64 || cpu >= cores) {
                        ++stray;
                        return;
                    }
                    ++inside;
                    ++seen[k];
                    ++worker[cpu];
                    --inside;
                    if (k == bad)
                        throw std::runtime_error("item");
                });
            } catch (const std::runtime_error&) {
                caught = true;
            }
            MC_CHECK(!stray, "an item out of range, or a worker number that is not below %u", cores);
            MC_CHECK(!inside, "returned while an item was being worked on");
            if (throws) {
                MC_CHECK(caught, "the exception of an item is lost");
                return;
            }
            for (u64 k = 0; k < 64; ++k) {
                const int want = (int)std::count(l.want.begin(), l.want.end(), k);
                MC_CHECK(seen[k] == want, "item %llu done %d times, not %d", k, seen[k], want);
            }
            int t = 0;
            for (int w : worker)
                t += w;
            MC_CHECK(t == (int)l.want.size(), "%d items in all, not %zu", t, l.want.size());
        });
        visited(mix(i, cores));
    };
    s.describe = [=](u64 i) { return (*L)[i / 2].name + (i % 2 ? ", one item throws" : ""); };
    return s;
}

// sums of norms
static Suite norms(const char* stride, unsigned cores, const Bounds& b)
{
    Suite s;
    s.name = fmt("norms/stride 2^%s, %u workers/%s%d", stride, cores, b.delays ? "d" : "p", b.preemptions);
    s.env = { { "QRACK_PSTRIDEPOW", stride } };
    s.hangSeconds = 300;
    const int top = 8;
    s.count = (top + 1) * 4;
    s.init = [=] { mcCores = cores; };
    s.run = [=](u64 i) {
        mcCores = cores;
        const int kind = i % 4;
        const u64 n = i / 4;
        under(b, [&] {
            ParallelFor p;
            setup(p, cores);
            Qrack::StateVectorPtr v = std::make_shared<Qrack::StateVectorArray>(top);
            v->clear();
            double want = 0;
            const float thr[4] = { 0, .5f, .02f, 0 };
            for (u64 k = 0; k < (u64)top; ++k) {
                const complex a((k % 3 ? .1f * (1 << (k % 4)) : 0), k == 5 ? .6f : 0);
                v->write(k, a);
                const double w = std::norm(cd(a.real(), a.imag()));
                if (k < n && w >= thr[kind])
                    want += w;
            }
            const double got = kind == 3 ? p.par_norm_exact(n, v) : p.par_norm(n, v, thr[kind]);
            MC_CHECK(std::fabs(got - want) < 1e-4, "sum %.6f, not %.6f", got, want);
            deviation(std::fabs(got - want));
        });
        visited(mix(i, cores));
    };
    s.describe = [=](u64 i) {
        static const char* k[] = { "par_norm, threshold 0", "par_norm, threshold .5", "par_norm, threshold .02", "par_norm_exact" };
        return fmt("%s of %llu amplitudes", k[i % 4], i / 4);
    };
    return s;
}

// the level from which work is queued depends on the number of workers alone, not on the way in which it was set
static Suite levels()
{
    Suite s;
    s.name = "levels";
    s.count = 8 * 9 * 9;
    s.env = { { "QRACK_PSTRIDEPOW", "11" } };
    s.run = [](u64 i) {
        const unsigned a = i % 9, b = i / 9 % 9;
        const unsigned hw = i / 81 + 1;
        mcCores = hw;
        ParallelFor p;
        p.SetConcurrencyLevel(a);
        p.SetConcurrencyLevel(b);
        const unsigned want = b ? b : 1;
        MC_CHECK(p.GetConcurrencyLevel() == want, "concurrency level %u, not %u", p.GetConcurrencyLevel(), want);
        mcCores = want;
        ParallelFor q;
        MC_CHECK(q.GetConcurrencyLevel() == want, "concurrency level %u of a new object, not %u", q.GetConcurrencyLevel(), want);
        MC_CHECK(p.GetStride() == q.GetStride() && p.GetPreferredConcurrencyPower() == q.GetPreferredConcurrencyPower(), "with %u workers, set after %u: queueing starts at 2^%d; 2^%d in a new object",
            want, a, (int)p.GetPreferredConcurrencyPower(), (int)q.GetPreferredConcurrencyPower());
        transition(2);
    };
    s.describe = [](u64 i) { return fmt("%llu cores, then SetConcurrencyLevel(%llu), SetConcurrencyLevel(%llu)", i / 81 + 1, i % 9, i / 9 % 9); };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C12", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "threads are scheduled at synchronisation operations; between them, the vector-clock monitor excludes data races",
        "sequentially consistent atomics", "ranges begin at 0 for the skipping loops, as all callers have it" };
    R.explore(levels());
    for (unsigned cores : { 1U, 2U, 3U }) {
        for (const char* stride : { "0", "1", "2" }) {
            const bool wide = cores > 2;
            R.explore(loopSuite(stride, cores, { (T ? 4 : 3) - wide, 0, true }, true));
            if (cores == 2)
                R.explore(loopSuite(stride, cores, { T ? 3 : 2 }, true));
            R.explore(norms(stride, cores, { (T ? 4 : 3) - wide, 0, true }));
        }
    }
    R.explore(loopSuite("0", 4, { T ? 2 : 1, 0, true }, true));
    return R.finish();
}
