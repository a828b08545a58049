// C04: probability and expectation queries.  Every query with every placement of its arguments returns the value the Born rule
// assigns to the reference state, and leaves the state as it was.
#include "gates.hpp"
using namespace mc;

typedef std::function<void(Ctx&)> Fn;
struct Query {
    std::string name;
    Fn f;
};
static double tolV(const Ctx& c) { return 2 * c.tol; }
static void eq(Ctx& c, double got, double want, const std::string& what, double scale = 1)
{
    double d = std::fabs(got - want);
    MC_CHECK(d <= tolV(c) * scale, "%s = %.6g, expected %.6g", what.c_str(), got, want);
    deviation(d / scale);
}
static u64 valueOf(u64 b, const std::vector<int>& p)
{
    u64 v = 0;
    for (size_t i = 0; i < p.size(); ++i)
        v |= ((b >> p[i]) & 1) << i;
    return v;
}
static void meanVar(const Ref& r, const std::function<double(u64)>& f, double& m, double& v)
{
    m = v = 0;
    for (u64 b = 0; b < r.size(); ++b)
        m += std::norm(r.a[b]) * f(b);
    for (u64 b = 0; b < r.size(); ++b)
        v += std::norm(r.a[b]) * (f(b) - m) * (f(b) - m);
}
static Bits bitsOf(const std::vector<int>& p) { return Bits(p.begin(), p.end()); }
static void selections(int n, const std::function<void(const std::vector<int>&)>& f)
{
    for (int k = 1; k <= n; ++k)
        placements(n, k, f);
}

static std::vector<Query> queries(int n, const Stack& st)
{
    std::vector<Query> Q;
    const u64 N = 1ULL << n, all = N - 1;
    auto add = [&](const std::string& nm, Fn f) { Q.push_back({ nm, f }); };
    add("Prob", [=](Ctx& c) {
        for (int t = 0; t < n; ++t) {
            double p = c.r.prob(1ULL << t, 1ULL << t);
            eq(c, c.q->Prob(t), p, fmt("Prob(%d)", t));
            eq(c, c.q->ProbRdm(t), p, fmt("ProbRdm(%d)", t));
        }
    });
    for (int anti = 0; anti < 2; ++anti)
        add(anti ? "ACProb" : "CProb", [=](Ctx& c) {
            placements(n, 2, [&](const std::vector<int>& p) {
                u64 cb = 1ULL << p[0], tb = 1ULL << p[1];
                double pc = c.r.prob(cb, anti ? 0 : cb);
                double pj = c.r.prob(cb | tb, (anti ? 0 : cb) | tb);
                double g = anti ? c.q->ACProb(p[0], p[1]) : c.q->CProb(p[0], p[1]);
                if (pc > 0.02) // the condition can be met (otherwise there is no right answer)
                    eq(c, g, pj / pc, fmt("%s(%d,%d)", anti ? "ACProb" : "CProb", p[0], p[1]), 1 / pc);
            });
        });
    add("ProbAll", [=](Ctx& c) {
        for (u64 b = 0; b < N; ++b) {
            eq(c, c.q->ProbAll(b), std::norm(c.r.a[b]), fmt("ProbAll(%llu)", b));
            for (bool rz : { false, true })
                eq(c, c.q->ProbAllRdm(rz, b), std::norm(c.r.a[b]), fmt("ProbAllRdm(%d,%llu)", (int)rz, b));
        }
    });
    add("GetProbs", [=](Ctx& c) {
        std::vector<real1> p(N + 1, (real1)-3);
        c.q->GetProbs(p.data());
        MC_CHECK(p[N] == (real1)-3, "GetProbs wrote past the end of its buffer");
        for (u64 b = 0; b < N; ++b)
            eq(c, p[b], std::norm(c.r.a[b]), fmt("GetProbs[%llu]", b));
    });
    add("GetAmplitude", [=](Ctx& c) {
        std::vector<cd> v(N);
        for (u64 b = 0; b < N; ++b) {
            complex a = c.q->GetAmplitude(b);
            v[b] = cd(a.real(), a.imag());
        }
        double d = distance(v, c.r.a);
        MC_CHECK(d <= 2 * c.tol, "GetAmplitude over all permutations gives %s, expected %s", show(v).c_str(), show(c.r.a).c_str());
    });
    add("ProbReg", [=](Ctx& c) {
        for (int s = 0; s < n; ++s)
            for (int l = 1; s + l <= n; ++l)
                for (u64 v = 0; v < (1ULL << l); ++v)
                    eq(c, c.q->ProbReg(s, l, v), c.r.prob(((1ULL << l) - 1) << s, v << s), fmt("ProbReg(%d,%d,%llu)", s, l, v));
    });
    add("ProbMask", [=](Ctx& c) {
        for (u64 m = 1; m <= all; ++m)
            for (u64 v = 0; v <= m; ++v)
                if (!(v & ~m)) {
                    eq(c, c.q->ProbMask(m, v), c.r.prob(m, v), fmt("ProbMask(%llu,%llu)", m, v));
                    for (bool rz : { false, true })
                        eq(c, c.q->ProbMaskRdm(rz, m, v), c.r.prob(m, v), fmt("ProbMaskRdm(%d,%llu,%llu)", (int)rz, m, v));
                }
    });
    add("ProbMaskAll", [=](Ctx& c) {
        for (u64 m = 1; m <= all; ++m) {
            std::vector<int> p;
            for (int i = 0; i < n; ++i)
                if ((m >> i) & 1)
                    p.push_back(i);
            u64 K = 1ULL << p.size();
            std::vector<real1> g(K + 1, (real1)-3);
            c.q->ProbMaskAll(m, g.data());
            MC_CHECK(g[K] == (real1)-3, "ProbMaskAll wrote past the end of its buffer");
            for (u64 v = 0; v < K; ++v)
                eq(c, g[v], c.r.probIf([&](u64 b) { return valueOf(b, p) == v; }), fmt("ProbMaskAll(%llu)[%llu]", m, v));
        }
    });
    add("ProbBitsAll", [=](Ctx& c) {
        selections(n, [&](const std::vector<int>& p) {
            u64 K = 1ULL << p.size();
            std::vector<real1> g(K + 1, (real1)-3);
            c.q->ProbBitsAll(bitsOf(p), g.data());
            MC_CHECK(g[K] == (real1)-3, "ProbBitsAll wrote past the end of its buffer");
            for (u64 v = 0; v < K; ++v)
                eq(c, g[v], c.r.probIf([&](u64 b) { return valueOf(b, p) == v; }), "ProbBitsAll(" + bitsStr(p) + fmt(")[%llu]", v));
        });
    });
    if (st.alu)
        add("ProbParity", [=](Ctx& c) {
            QParityPtr q = std::dynamic_pointer_cast<QParity>(c.q);
            for (u64 m = 0; m <= all; ++m)
                eq(c, q->ProbParity(m), c.r.probIf([&](u64 b) { return __builtin_popcountll(b & m) & 1; }), fmt("ProbParity(%llu)", m));
        });
    for (u64 off : { 0ULL, 5ULL })
        add(fmt("BitsAll(offset=%llu)", off), [=](Ctx& c) {
            selections(n, [&](const std::vector<int>& p) {
                double m, v;
                meanVar(c.r, [&](u64 b) { return (double)(valueOf(b, p) + off); }, m, v);
                std::string a = "(" + bitsStr(p) + fmt(",%llu)", off);
                eq(c, c.q->ExpectationBitsAll(bitsOf(p), off), m, "ExpectationBitsAll" + a, 8);
                eq(c, c.q->VarianceBitsAll(bitsOf(p), off), v, "VarianceBitsAll" + a, 40);
                for (bool rz : { false, true }) {
                    eq(c, c.q->ExpectationBitsAllRdm(rz, bitsOf(p), off), m, "ExpectationBitsAllRdm" + a, 8);
                    eq(c, c.q->VarianceBitsAllRdm(rz, bitsOf(p), off), v, "VarianceBitsAllRdm" + a, 40);
                }
            });
        });
    for (u64 off : { 0ULL, 2ULL })
        add(fmt("BitsFactorized(offset=%llu)", off), [=](Ctx& c) {
            selections(n, [&](const std::vector<int>& p) {
                std::vector<bitCapInt> w;
                std::vector<double> wd;
                for (size_t i = 0; i < p.size(); ++i) {
                    w.push_back((i * 2 + 1) % 4);
                    w.push_back((3 + i * 5) % 7);
                    wd.push_back((i * 2 + 1) % 4);
                    wd.push_back((3 + i * 5) % 7);
                }
                auto f = [&](u64 b) {
                    double s = (double)off;
                    for (size_t i = 0; i < p.size(); ++i)
                        s += wd[2 * i + ((b >> p[i]) & 1)];
                    return s;
                };
                double m, v;
                meanVar(c.r, f, m, v);
                std::string a = "(" + bitsStr(p) + fmt(",%llu)", off);
                eq(c, c.q->ExpectationBitsFactorized(bitsOf(p), w, off), m, "ExpectationBitsFactorized" + a, 10);
                eq(c, c.q->VarianceBitsFactorized(bitsOf(p), w, off), v, "VarianceBitsFactorized" + a, 60);
                for (bool rz : { false, true }) {
                    eq(c, c.q->ExpectationBitsFactorizedRdm(rz, bitsOf(p), w, off), m, "ExpectationBitsFactorizedRdm" + a, 10);
                    eq(c, c.q->VarianceBitsFactorizedRdm(rz, bitsOf(p), w, off), v, "VarianceBitsFactorizedRdm" + a, 60);
                }
            });
        });
    add("FloatsFactorized", [=](Ctx& c) {
        selections(n, [&](const std::vector<int>& p) {
            std::vector<real1_f> w;
            for (size_t i = 0; i < p.size(); ++i) {
                w.push_back((real1_f)(0.5 + 0.7 * i));
                w.push_back((real1_f)(-1.25 + 0.4 * i));
            }
            auto f = [&](u64 b) {
                double s = 0;
                for (size_t i = 0; i < p.size(); ++i)
                    s += w[2 * i + ((b >> p[i]) & 1)];
                return s;
            };
            double m, v;
            meanVar(c.r, f, m, v);
            eq(c, c.q->ExpectationFloatsFactorized(bitsOf(p), w), m, "ExpectationFloatsFactorized" + bitsStr(p), 4);
            eq(c, c.q->VarianceFloatsFactorized(bitsOf(p), w), v, "VarianceFloatsFactorized" + bitsStr(p), 10);
            for (bool rz : { false, true }) {
                eq(c, c.q->ExpectationFloatsFactorizedRdm(rz, bitsOf(p), w), m, "ExpectationFloatsFactorizedRdm" + bitsStr(p), 4);
                eq(c, c.q->VarianceFloatsFactorizedRdm(rz, bitsOf(p), w), v, "VarianceFloatsFactorizedRdm" + bitsStr(p), 10);
            }
        });
    });
    // sum over the listed qubits of the observable B diag(e0,e1) B^dagger
    auto observed = [](const Ref& r0, const std::vector<int>& p, const std::vector<M2>& B, const std::vector<double>& e, double& m, double& v) {
        Ref r = r0;
        for (size_t i = 0; i < p.size(); ++i)
            r.g1(p[i], adj(B[i]));
        meanVar(r, [&](u64 b) {
            double s = 0;
            for (size_t i = 0; i < p.size(); ++i)
                s += e[2 * i + ((b >> p[i]) & 1)];
            return s;
        }, m, v);
    };
    for (int k = 1; k <= n; ++k)
        add(fmt("PauliAll/%d", k), [=](Ctx& c) {
            const Pauli P[4] = { PauliI, PauliX, PauliZ, PauliY };
            const M2 B[4] = { mP(0), mH(), mP(0), mul(mP(PI / 2), mH()) };
            placements(n, k, [&](const std::vector<int>& p) {
                for (u64 w = 0; w < (1ULL << (2 * k)); ++w) {
                    std::vector<Pauli> ps;
                    std::vector<int> pp;
                    std::vector<M2> bs;
                    std::vector<double> e;
                    std::string a = "(" + bitsStr(p) + ",";
                    for (int i = 0; i < k; ++i) {
                        int x = (w >> (2 * i)) & 3;
                        ps.push_back(P[x]);
                        a += "IXZY"[x];
                        if (x)
                            pp.push_back(p[i]), bs.push_back(B[x]), e.push_back(1), e.push_back(-1);
                    }
                    if (pp.empty())
                        continue;
                    double m, v;
                    observed(c.r, pp, bs, e, m, v);
                    eq(c, c.q->ExpectationPauliAll(bitsOf(p), ps), m, "ExpectationPauliAll" + a + ")", 3);
                    eq(c, c.q->VariancePauliAll(bitsOf(p), ps), v, "VariancePauliAll" + a + ")", 8);
                }
            });
        });
    for (int own = 0; own < 2; ++own)
        add(own ? "UnitaryAll(eigenvalues)" : "UnitaryAll", [=](Ctx& c) {
            selections(n, [&](const std::vector<int>& p) {
                std::vector<M2> B;
                std::vector<real1_f> par, ev;
                std::vector<std::shared_ptr<complex>> mt;
                std::vector<double> e;
                for (size_t i = 0; i < p.size(); ++i) {
                    double th = st.clifford ? PI / 2 : 0.9 + 0.3 * i, ph = st.clifford ? PI / 2 * (i + 1) : 0.5 - 0.4 * i, la = st.clifford ? PI : -0.7 + i;
                    par.push_back((real1_f)th);
                    par.push_back((real1_f)ph);
                    par.push_back((real1_f)la);
                    B.push_back(mU(th, ph, la));
                    std::shared_ptr<complex> m(new complex[4], std::default_delete<complex[]>());
                    for (int j = 0; j < 4; ++j)
                        m.get()[j] = cc(B[i].m[j]);
                    mt.push_back(m);
                    e.push_back(own ? 0.25 + i : 1);
                    e.push_back(own ? 1.5 - i : -1);
                    if (own)
                        ev.push_back((real1_f)e[2 * i]), ev.push_back((real1_f)e[2 * i + 1]);
                }
                double m, v;
                observed(c.r, p, B, e, m, v);
                std::string a = bitsStr(p);
                eq(c, c.q->ExpectationUnitaryAll(bitsOf(p), mt, ev), m, "ExpectationUnitaryAll(matrices)" + a, 4);
                eq(c, c.q->VarianceUnitaryAll(bitsOf(p), mt, ev), v, "VarianceUnitaryAll(matrices)" + a, 10);
                eq(c, c.q->ExpectationUnitaryAll(bitsOf(p), par, ev), m, "ExpectationUnitaryAll(angles)" + a, 4);
                eq(c, c.q->VarianceUnitaryAll(bitsOf(p), par, ev), v, "VarianceUnitaryAll(angles)" + a, 10);
            });
        });
    if (n <= 2 || st.slow <= 1)
        add("Clone", [=](Ctx& c) {
            QInterfacePtr k = c.q->Clone();
            compareState(k, c.r, c.tol, "clone");
            eq(c, c.q->SumSqrDiff(k), 0, "SumSqrDiff(clone)");
            MC_CHECK(c.q->ApproxCompare(k), "ApproxCompare(clone) is false");
        });
    return Q;
}

static Suite suite(const Stack& st, int n, const std::vector<Alphabet>& preps)
{
    Suite s;
    s.name = fmt("query%d/", n) + st.name;
    s.env = st.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto C = std::make_shared<std::vector<Query>>(queries(n, st));
    s.count = P->size() * C->size();
    const Stack* sp = &st;
    s.run = [=](u64 i) {
        Ctx c;
        c.start(*sp, n);
        for (auto& o : (*P)[i / C->size()])
            o.f(c);
        (*C)[i % C->size()].f(c);
        transition(2);
        compareState(c.q, c.r, c.tol, "state after the query");
        visited(mix(c.r.hash(), i % C->size()));
    };
    s.describe = [=](u64 i) { return (*P)[i / C->size()][0].name + "; " + (*C)[i % C->size()].name; };
    return s;
}

// SumSqrDiff of two simulators = 1 - |<a|b>|^2
static Suite pairs(const Stack& st, int n, const std::vector<Alphabet>& preps)
{
    Suite s;
    s.name = fmt("compare%d/", n) + st.name;
    s.env = st.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    s.count = P->size() * P->size();
    const Stack* sp = &st;
    s.run = [=](u64 i) {
        Ctx a, b;
        a.start(*sp, n);
        b.start(*sp, n);
        for (auto& o : (*P)[i / P->size()])
            o.f(a);
        for (auto& o : (*P)[i % P->size()])
            o.f(b);
        cd ov = 0;
        for (u64 k = 0; k < a.r.size(); ++k)
            ov += std::conj(a.r.a[k]) * b.r.a[k];
        double want = 1 - std::norm(ov);
        double got = a.q->SumSqrDiff(b.q);
        MC_CHECK(std::fabs(got - want) < 4e-3, "SumSqrDiff = %.5f, expected 1 - |<a|b>|^2 = %.5f", got, want);
        MC_CHECK(a.q->ApproxCompare(b.q, 0.05f) == (want <= 0.05), "ApproxCompare(tolerance 0.05) = %d for states at distance %.5f", (int)!(want <= 0.05), want);
        compareState(a.q, a.r, a.tol, "left state after the comparison");
        compareState(b.q, b.r, b.tol, "right state after the comparison");
        transition(2);
        visited(mix(a.r.hash(), b.r.hash()));
    };
    s.describe = [=](u64 i) { return (*P)[i / P->size()][0].name + " vs " + (*P)[i % P->size()][0].name; };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C04", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "all placements of one query kind run in turn on one simulator, so that a query that disturbs the state is seen by the next one" };
    for (const Stack& st : allStacks()) {
        const bool slow = st.slow > 1;
        R.explore(suite(st, 2, prepMenu(2, st.clifford, !T && slow)));
        R.explore(suite(st, 3, prepMenu(3, st.clifford, !T || slow)));
        R.explore(pairs(st, 2, prepMenu(2, st.clifford, !T)));
        if (T)
            R.explore(pairs(st, 3, prepMenu(3, st.clifford, true)));
    }
    return R.finish();
}
