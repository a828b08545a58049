// C17: multi-shot sampling.  Every ordered subset of qubits x start state x stack, through both variants of the call:
// over the complete choice tree of one shot (and of two) the outcomes have the Born distribution; with many shots the total
// is right, only possible outcomes occur, and frequencies (also of pairs of units) agree; the state stays as it was.
#include "choice.hpp"
using namespace mc;

static std::vector<bitCapInt> powersOf(const std::vector<int>& p)
{
    std::vector<bitCapInt> o;
    for (int x : p)
        o.push_back(((bitCapInt)1U) << x);
    return o;
}
static std::vector<double> born(const Ref& r, const std::vector<int>& p)
{
    std::vector<double> o(1ULL << p.size(), 0);
    for (u64 i = 0; i < r.size(); ++i) {
        u64 k = 0;
        for (size_t j = 0; j < p.size(); ++j)
            k |= ((i >> p[j]) & 1) << j;
        o[k] += std::norm(r.a[i]);
    }
    return o;
}
enum Api { MAP, ARRAY };
// the outcomes of `shots` shots, as counts
static std::vector<u64> shotsOf(Ctx& c, const std::vector<int>& p, unsigned shots, Api api)
{
    std::vector<u64> counts(1ULL << p.size(), 0);
    auto one = [&](u64 k, u64 n) {
        MC_CHECK(k < counts.size(), "reported the outcome %llu for %d qubits", k, (int)p.size());
        counts[k] += n;
    };
    if (api == MAP) {
        std::map<bitCapInt, int> m = c.q->MultiShotMeasureMask(powersOf(p), shots);
        for (auto& x : m) {
            MC_CHECK(x.second > 0, "reported the outcome %llu %d times", (u64)x.first, x.second);
            one((u64)x.first, x.second);
        }
    } else {
        std::vector<unsigned long long> a(shots + 1, 0x7777777777777777ULL);
        c.q->MultiShotMeasureMask(powersOf(p), shots, a.data());
        MC_CHECK(a[shots] == 0x7777777777777777ULL, "wrote past the end of its array");
        for (unsigned i = 0; i < shots; ++i)
            one(a[i], 1);
    }
    u64 t = 0;
    for (u64 x : counts)
        t += x;
    MC_CHECK(t == shots, "reported %llu outcomes for %u shots", t, shots);
    return counts;
}
static const char* apiName[] = { "map", "array" };

struct Shape {
    std::vector<int> p;
    Api api;
};
static std::vector<Shape> shapes(int n)
{
    std::vector<Shape> S;
    for (int k = 1; k <= n; ++k)
        placements(n, k, [&](const std::vector<int>& p) {
            S.push_back({ p, MAP });
            S.push_back({ p, ARRAY });
        });
    return S;
}
static std::string shapeName(const Shape& s) { return fmt("MultiShotMeasureMask(%s)/%s", bitsStr(s.p).c_str(), apiName[s.api]); }

// the complete choice tree of `shots` shots
static Suite tree(const Stack& st, int n, unsigned shots, const std::vector<Alphabet>& preps)
{
    Suite s;
    s.name = fmt("tree%d, %u shots/", n, shots) + st.name;
    s.env = st.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto S = std::make_shared<std::vector<Shape>>(shapes(n));
    s.count = P->size() * S->size();
    Stack exact = st;
    exact.randPhase = false;
    auto sp = std::make_shared<Stack>(exact);
    s.init = [] { mcCores = 1; };
    s.run = [=](u64 i) {
        mcCores = 1; // (shots in threads are the matter of C11)
        const Alphabet& prep = (*P)[i / S->size()];
        const Shape& h = (*S)[i % S->size()];
        std::vector<double> want;
        std::vector<double> mean(1ULL << h.p.size(), 0);
        u64 runs = 0, grid = 64;
        bool seeded = false;
        ChoiceTree t = exploreChoices([&](const Answers& a) {
            Ctx c;
            c.start(*sp, n);
            for (auto& o : prep)
                o.f(c);
            if (want.empty())
                want = born(c.r, h.p);
            installAnswers(c.rng, a);
            std::vector<u64> k = shotsOf(c, h.p, shots, h.api);
            std::string key;
            for (size_t j = 0; j < k.size(); ++j) {
                MC_CHECK(!k[j] || want[j] > 1e-6, "%s reported outcome %zu, of probability %.3g", shapeName(h).c_str(), j, want[j]);
                key += fmt("%llu,", k[j]);
            }
            Outcome o = outcome(key, c.rng);
            seeded |= o.devices > 0;
            if (runs == 0)
                grid = o.draws + o.devices <= 1 ? 64 : o.draws + o.devices == 2 ? 16 : o.draws + o.devices == 3 ? 8 : 5;
            if (++runs < 3)
                compareState(c.q, c.r, c.tol, "state after sampling");
            visited(mix(c.r.hash(), std::hash<std::string>()(key)));
            return o;
        });
        if (t.truncated || (seeded && shots > 1)) // (the second shot of a seeded generator is not enumerated)
            return;
        // (an outcome is a union of up to 2^(n-1) intervals of one draw, if that selects a permutation of all qubits)
        const double tol = t.tol + (n > 2 ? (1 << (n - 1)) * .5 / grid : 0) + 1e-3;
        for (auto& f : t.freq) {
            const char* x = f.first.c_str();
            for (size_t j = 0; j < mean.size(); ++j) {
                mean[j] += f.second * strtoull(x, (char**)&x, 10) / shots;
                ++x;
            }
        }
        if (shots == 2) // (independent: the two are equal as often as they should be)
            for (size_t j = 0; j < mean.size(); ++j) {
                std::string both;
                for (size_t k = 0; k < mean.size(); ++k)
                    both += k == j ? "2," : "0,";
                auto it = t.freq.find(both);
                const double f = it == t.freq.end() ? 0 : it->second;
                MC_CHECK(std::fabs(f - want[j] * want[j]) <= tol, "%s: both of two shots are %zu with frequency %.4f over the complete choice tree, but probability %.4f", shapeName(h).c_str(), j, f, want[j] * want[j]);
            }
        for (size_t j = 0; j < mean.size(); ++j)
            MC_CHECK(std::fabs(mean[j] - want[j]) <= tol, "%s: outcome %zu has frequency %.4f over the complete choice tree of %u shot(s) (%llu runs), but probability %.4f", shapeName(h).c_str(), j, mean[j], shots, t.runs, want[j]);
    };
    s.describe = [=](u64 i) { return (*P)[i / S->size()][0].name + "; " + shapeName((*S)[i % S->size()]); };
    return s;
}

// many shots, generators with fixed seeds
static Suite many(const Stack& st, int n, unsigned shots, const std::vector<Alphabet>& preps, unsigned cores)
{
    Suite s;
    s.name = fmt("many%d, %u shots, %u core(s)/", n, shots, cores) + st.name;
    s.env = st.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto S = std::make_shared<std::vector<Shape>>(shapes(n));
    s.count = P->size() * S->size();
    const Stack* sp = &st;
    s.init = [=] { mcCores = cores; };
    s.run = [=](u64 i) {
        mcCores = cores;
        const Alphabet& prep = (*P)[i / S->size()];
        const Shape& h = (*S)[i % S->size()];
        Ctx c;
        c.start(*sp, n);
        for (auto& o : prep)
            o.f(c);
        std::vector<double> dev;
        for (int j = 0; j < 40; ++j)
            dev.push_back((j * 29 % 64 + .5) / 64);
        rdScript.script(dev, .3);
        const std::vector<double> want = born(c.r, h.p);
        MC_CHECK(shotsOf(c, h.p, 0, h.api).size() > 0, "no shots");
        const std::vector<u64> k = shotsOf(c, h.p, shots, h.api);
        transition(2);
        for (size_t j = 0; j < k.size(); ++j) {
            MC_CHECK(!k[j] || want[j] > 1e-6, "%s reported outcome %zu, of probability %.3g", shapeName(h).c_str(), j, want[j]);
            if (shots >= 200)
                MC_CHECK(std::fabs(k[j] * 1. / shots - want[j]) <= .15, "%s: outcome %zu in %llu of %u shots, but its probability is %.4f", shapeName(h).c_str(), j, k[j], shots, want[j]);
        }
        compareState(c.q, c.r, c.tol, "state after sampling");
        visited(c.r.hash());
    };
    s.describe = [=](u64 i) { return (*P)[i / S->size()][0].name + "; " + shapeName((*S)[i % S->size()]); };
    return s;
}

// extreme answers of the generator: the largest below 1 and the smallest, in every combination for the first draws
static Suite edge(const Stack& st, int n, unsigned shots, const std::vector<Alphabet>& preps)
{
    Suite s;
    s.name = fmt("edge%d, %u shots/", n, shots) + st.name;
    s.env = st.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto S = std::make_shared<std::vector<Shape>>(shapes(n));
    const int E = 8;
    s.count = P->size() * S->size() * E;
    const Stack* sp = &st;
    s.init = [] { mcCores = 1; };
    s.run = [=](u64 i) {
        mcCores = 1;
        const Alphabet& prep = (*P)[i / E / S->size()];
        const Shape& h = (*S)[i / E % S->size()];
        Ctx c;
        c.start(*sp, n);
        for (auto& o : prep)
            o.f(c);
        Answers a;
        for (int j = 0; j < 12; ++j) {
            a.draws.push_back(i >> (j % 3) & 1 ? 1 - 1e-9 : 1e-9);
            a.devices.push_back(i >> (j % 3) & 1 ? .99999 : .00001);
        }
        installAnswers(c.rng, a);
        // (not the support: these answers may select what is possible by rounding only)
        shotsOf(c, h.p, shots, h.api);
        transition(1);
        compareState(c.q, c.r, c.tol, "state after sampling");
    };
    s.describe = [=](u64 i) { return (*P)[i / E / S->size()][0].name + "; " + shapeName((*S)[i / E % S->size()]) + fmt("; extremes %llu", i % E); };
    return s;
}

// registers of four qubits in two units, and some more states
static std::vector<Alphabet> pairsMenu(bool clifford)
{
    auto H = [](int t) { return [=](Ctx& c) { c.q->H(t); c.r.g1(t, mH()); }; };
    auto X = [](int t) { return [=](Ctx& c) { c.q->X(t); c.r.g1(t, mX()); }; };
    auto CX = [](int a, int b) { return [=](Ctx& c) { c.q->CNOT(a, b); c.r.ctl(1ULL << a, 1ULL << a, b, mX()); }; };
    auto RY = [=](int t) { return [=](Ctx& c) { if (clifford) { c.q->H(t); c.r.g1(t, mH()); } else { c.q->RY(.9, t); c.r.g1(t, mRY(.9)); } }; };
    typedef std::function<void(Ctx&)> F;
    auto seq = [](const char* nm, std::vector<F> f) { return Alphabet{ Op{ nm, [=](Ctx& c) { for (auto& x : f) x(c); } } }; };
    return { seq("bell 01, bell 23", { H(0), CX(0, 1), H(2), CX(2, 3) }), seq("bell 03, bell 21", { H(0), CX(0, 3), H(2), CX(2, 1) }),
        seq("anti-bell 02, ry 13", { H(2), CX(2, 0), X(0), RY(1), CX(1, 3) }), seq("ghz 0123", { H(3), CX(3, 1), CX(1, 0), CX(0, 2) }),
        seq("+ + bell 03", { H(1), H(2), RY(0), CX(0, 3) }), seq("1 + bell 02", { X(1), H(3), H(0), CX(0, 2) }),
        seq("ry ry ry ry", { RY(0), RY(1), X(2), RY(2), RY(3), X(3) }) };
}

// every history of controlled gates on a product state, then shots of the whole register: QUnit keeps these gates in buffers
static Suite histories(const Stack& st, int n, int len, unsigned shots)
{
    Suite s;
    s.name = fmt("histories%d, %d gates, %u shots/", n, len, shots) + st.name;
    s.env = st.env;
    auto A = std::make_shared<Alphabet>();
    for (int a = 0; a < n; ++a) {
        A->push_back({ fmt("H(%d)", a), [=](Ctx& c) { c.q->H(a); c.r.g1(a, mH()); } });
        for (int b = 0; b < n; ++b)
            if (a != b) {
                A->push_back({ fmt("CNOT(%d,%d)", a, b), [=](Ctx& c) { c.q->CNOT(a, b); c.r.ctl(1ULL << a, 1ULL << a, b, mX()); } });
                A->push_back({ fmt("AntiCNOT(%d,%d)", a, b), [=](Ctx& c) { c.q->AntiCNOT(a, b); c.r.ctl(1ULL << a, 0, b, mX()); } });
                if (a < b)
                    A->push_back({ fmt("CZ(%d,%d)", a, b), [=](Ctx& c) { c.q->CZ(a, b); c.r.ctl(1ULL << a, 1ULL << a, b, mZ()); } });
            }
    }
    u64 N = 1;
    for (int i = 0; i < len; ++i)
        N *= A->size();
    const bool clifford = st.clifford;
    std::vector<Shape> S;
    std::vector<int> up, down;
    for (int i = 0; i < n; ++i)
        up.push_back(i), down.push_back(n - 1 - i);
    S = { { up, MAP }, { down, MAP }, { down, ARRAY }, { { 0, n - 1 }, MAP } };
    s.count = N * S.size();
    const Stack* sp = &st;
    s.init = [] { mcCores = 1; };
    s.run = [=](u64 i) {
        mcCores = 1;
        const Shape& h = S[i % S.size()];
        u64 x = i / S.size();
        Ctx c;
        c.start(*sp, n);
        for (int t = 0; t < n; ++t) {
            if (clifford) {
                if (t != 1) {
                    c.q->H(t);
                    c.r.g1(t, mH());
                }
            } else {
                c.q->RY(.6f + .5f * t, t);
                c.r.g1(t, mRY(.6f + .5f * t));
            }
        }
        for (int j = 0; j < len; ++j, x /= A->size())
            (*A)[x % A->size()].f(c);
        std::vector<double> dev;
        for (int j = 0; j < 40; ++j)
            dev.push_back((j * 29 % 64 + .5) / 64);
        rdScript.script(dev, .3);
        const std::vector<double> want = born(c.r, h.p);
        const std::vector<u64> k = shotsOf(c, h.p, shots, h.api);
        transition(len + 1);
        for (size_t j = 0; j < k.size(); ++j) {
            MC_CHECK(!k[j] || want[j] > 1e-6, "%s reported outcome %zu, of probability %.3g", shapeName(h).c_str(), j, want[j]);
            MC_CHECK(std::fabs(k[j] * 1. / shots - want[j]) <= .18, "%s: outcome %zu in %llu of %u shots, but its probability is %.4f", shapeName(h).c_str(), j, k[j], shots, want[j]);
        }
        compareState(c.q, c.r, c.tol, "state after sampling");
        visited(c.r.hash());
    };
    s.describe = [=](u64 i) {
        std::string d = "product state";
        u64 x = i / S.size();
        for (int j = 0; j < len; ++j, x /= A->size())
            d += "; " + (*A)[x % A->size()].name;
        return d + "; " + shapeName(S[i % S.size()]);
    };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C17", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "random answers of one and two shots are enumerated on midpoint grids (64 points for one draw, 16 x 16 for two, 8^3 for three)",
        "with 400 shots, seeds are fixed and frequencies compared within 0.15 (six standard deviations)",
        "shots in one thread, except in the suites with several cores; their interleavings are the matter of C11" };
    for (const Stack& st : allStacks()) {
        const bool slow = st.slow > 1;
        R.explore(tree(st, 2, 1, prepMenu(2, st.clifford, !T && slow)));
        R.explore(tree(st, 2, 2, prepMenu(2, st.clifford, !T)));
        if (T || !slow)
            R.explore(tree(st, 3, 1, prepMenu(3, st.clifford, slow || !T)));
        R.explore(edge(st, 2, 2, prepMenu(2, st.clifford, !T && slow)));
        R.explore(edge(st, 3, 3, prepMenu(3, st.clifford, true)));
        if (st.name.compare(0, 5, "qunit") == 0)
            R.explore(histories(st, 3, T ? 4 : 3, 300));
        if (st.name == "qunit-cpu")
            R.explore(histories(st, 3, T ? 5 : 4, 300));
        R.explore(many(st, 2, 400, prepMenu(2, st.clifford, !T && slow), 1));
        R.explore(many(st, 3, 400, prepMenu(3, st.clifford, slow || !T), 1));
        R.explore(many(st, 4, 400, pairsMenu(st.clifford), 1));
        R.explore(many(st, 4, 40, pairsMenu(st.clifford), 3));
    }
    return R.finish();
}
