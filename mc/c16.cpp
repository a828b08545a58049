// C16: amplitudes in and out.  Histories of writing calls (whole states, single amplitudes, pages from arrays and from other
// engines, exchange of halves, clearing, normalizing), gates and clones, against plain arrays; after each, every reading call.
#include "gates.hpp"
#include "qengine.hpp"
using namespace mc;
using Qrack::QEngine;
using Qrack::QEnginePtr;

typedef std::vector<cd> Vec;
static double norm2(const Vec& v)
{
    double s = 0;
    for (auto& x : v)
        s += std::norm(x);
    return s;
}
static Vec scaled(Vec v, double f)
{
    for (auto& x : v)
        x *= f;
    return v;
}
static Vec unit(const Vec& v)
{
    const double s = norm2(v);
    return s > 1e-9 ? scaled(v, 1 / std::sqrt(s)) : v;
}
static std::vector<complex> narrow(const Vec& v)
{
    std::vector<complex> o;
    for (auto& x : v)
        o.push_back(cc(x));
    return o;
}
static double dist(const Vec& a, const Vec& b)
{
    double d = 0;
    for (size_t i = 0; i < a.size(); ++i)
        d = std::max(d, std::abs(a[i] - b[i]));
    return d;
}
// `got` is `want`, up to a positive factor if the engine normalizes when it likes to
static void same(const Vec& got, const Vec& want, bool anyScale, const char* what)
{
    const double d = anyScale ? dist(unit(got), unit(want)) : dist(got, want);
    MC_CHECK(d < 1e-3, "%s differs by %.4g\n   got      %s\n   expected %s", what, d, show(got).c_str(), show(want).c_str());
    deviation(d);
}
// a few states with all amplitudes different
static Vec someState(int n, int which)
{
    const u64 N = 1ULL << n;
    Vec v(N);
    for (u64 i = 0; i < N; ++i) {
        const double x = which == 0 ? .3 + .1 * i : which == 1 ? (i % 3 == 1 ? 0 : 1. / (1 + i)) : which == 2 ? (i == N - 2) : (i & 1 ? .8 : .6);
        v[i] = std::polar(x, which == 3 ? .9 * __builtin_popcountll(i >> 1) : .4 * i * (which + 1));
    }
    return unit(v);
}

// ------------------------------------------------------------------ engines
struct World {
    const Stack* st;
    int n;
    Ctx c; // the register
    Ctx e; // another one
    QEnginePtr q() { return std::dynamic_pointer_cast<QEngine>(c.q); }
    QEnginePtr k() { return std::dynamic_pointer_cast<QEngine>(e.q); }
    bool normal() { return st->doNorm || st->name.find("pager") == 0; }
    // A register that normalizes may have scaled an unnormalized state in any call but writing amplitudes: a history that then writes
    // single amplitudes is undefined.
    bool loose = false, looseOther = false;
    bool undefined = false;
    void gate() { loose |= std::fabs(norm2(c.r.a) - 1) > 1e-6; }
    void gateOther() { looseOther |= std::fabs(norm2(e.r.a) - 1) > 1e-6; }
    void partial() { undefined |= loose; }
    Vec& a() { return c.r.a; }
    Vec& b() { return e.r.a; }
};
struct WOp {
    std::string name;
    std::function<void(World&)> f;
};
static std::vector<WOp> engineOps(int n)
{
    std::vector<WOp> A;
    const u64 N = 1ULL << n;
    auto add = [&](const std::string& nm, std::function<void(World&)> f) { A.push_back({ nm, f }); };
    for (u64 i : { (u64)0, N / 2 - 1, N - 1 })
        for (cd v : { cd(0), cd(.5), cd(0, -.6) })
            add(fmt("SetAmplitude(%llu,%.1f%+.1fi)", i, v.real(), v.imag()), [=](World& w) { w.partial(); w.q()->SetAmplitude(i, cc(v)); w.a()[i] = v; });
    const u64 ranges[][2] = { { 0, N }, { 0, N / 2 }, { N / 2, N / 2 }, { 1, N / 2 }, { N / 2 - 1, 2 }, { N - 1, 1 }, { N, 0 } };
    for (auto& r : ranges) {
        const u64 o = r[0], l = r[1];
        add(fmt("SetAmplitudePage(array,%llu,%llu)", o, l), [=](World& w) {
            Vec v = someState(n, 0);
            v.resize(l);
            if (l == N)
                w.loose = false;
            w.partial();
            w.q()->SetAmplitudePage(narrow(v).data(), o, l);
            std::copy(v.begin(), v.end(), w.a().begin() + o);
        });
    }
    const u64 moves[][3] = { { 0, 0, N }, { 0, N / 2, N / 2 }, { N / 2, 0, N / 2 }, { 1, 0, N - 1 }, { 0, N - 1, 1 }, { N / 2 - 1, N / 2 - 1, 2 } };
    for (auto& r : moves) {
        const u64 s = r[0], d = r[1], l = r[2];
        add(fmt("SetAmplitudePage(other,%llu,%llu,%llu)", s, d, l), [=](World& w) {
            if (l == N)
                w.loose = w.looseOther;
            w.undefined |= l < N && (w.loose || w.looseOther);
            w.q()->SetAmplitudePage(w.k(), s, d, l);
            std::copy(w.b().begin() + s, w.b().begin() + s + l, w.a().begin() + d);
        });
    }
    add("ShuffleBuffers(other)", [=](World& w) {
        w.undefined |= w.loose || w.looseOther;
        w.q()->ShuffleBuffers(w.k());
        std::swap_ranges(w.a().begin() + N / 2, w.a().end(), w.b().begin());
    });
    add("CopyStateVec(other)", [=](World& w) { w.q()->CopyStateVec(w.k()); w.gateOther(); w.a() = w.b(); w.loose = w.looseOther; });
    add("other.CopyStateVec(this)", [=](World& w) { w.k()->CopyStateVec(w.q()); w.gate(); w.b() = w.a(); w.looseOther = w.loose; });
    add("ZeroAmplitudes", [=](World& w) { w.q()->ZeroAmplitudes(); w.a().assign(N, 0); w.loose = false; });
    add("other.ZeroAmplitudes", [=](World& w) { w.k()->ZeroAmplitudes(); w.b().assign(N, 0); w.looseOther = false; });
    for (int k = 0; k < 2; ++k)
        add(fmt("SetQuantumState(%d)", k), [=](World& w) { w.q()->SetQuantumState(narrow(someState(n, k)).data()); w.a() = someState(n, k); w.loose = false; });
    add("SetPermutation(2)", [=](World& w) { w.q()->SetPermutation((bitCapInt)2U); w.a().assign(N, 0); w.a()[2] = 1; w.loose = false; });
    add("CloneEmpty", [=](World& w) { w.c.q = w.q()->CloneEmpty(); w.a().assign(N, 0); w.loose = false; });
    add("Clone", [=](World& w) { QInterfacePtr k = w.c.q->Clone(); w.c.q->X(0); w.c.q = k; w.gate(); });
    add("other = Clone", [=](World& w) { w.e.q = w.c.q->Clone(); w.gate(); w.e.r = w.c.r; w.looseOther = w.loose; });
    add("H(0)", [=](World& w) { w.gate(); w.q()->H(0); w.c.r.g1(0, mH()); });
    add("X(top)", [=](World& w) { w.gate(); w.q()->X(n - 1); w.c.r.g1(n - 1, mX()); });
    add("RY(top)", [=](World& w) { w.gate(); w.q()->RY(.7f, n - 1); w.c.r.g1(n - 1, mRY(.7)); });
    add("CNOT(top,0)", [=](World& w) { w.gate(); w.q()->CNOT(n - 1, 0); w.c.r.ctl(1ULL << (n - 1), 1ULL << (n - 1), 0, mX()); });
    add("T(1)", [=](World& w) { w.gate(); w.q()->T(1); w.c.r.g1(1, mP(PI / 4)); });
    add("ForceMParity(3,1)", [=](World& w) {
        Vec v = w.a();
        for (u64 i = 0; i < N; ++i)
            if (!(__builtin_popcountll(i & 3) & 1))
                v[i] = 0;
        if (std::fabs(norm2(w.a()) - 1) > 1e-6 || norm2(v) < 1e-3) {
            w.undefined = true; // (not a state, or an impossible outcome)
            return;
        }
        w.q()->ForceMParity((bitCapInt)3U, true);
        w.a() = unit(v);
        w.loose = w.normal(); // (the projected state is scaled later)
    });
    add("UpdateRunningNorm, NormalizeState", [=](World& w) { w.q()->UpdateRunningNorm(); w.q()->NormalizeState(); w.a() = unit(w.a()); w.loose = false; });
    add("UpdateRunningNorm", [=](World& w) { w.q()->UpdateRunningNorm(); w.gate(); });
    add("Finish, isFinished", [=](World& w) { w.q()->Finish(); MC_CHECK(w.q()->isFinished(), "not finished"); });
    return A;
}
// every way to read
static void readAll(World& w, QEnginePtr q, const Vec& want, const std::string& who)
{
    const bool any = w.normal(), pager = w.st->name.find("pager") == 0;
    const u64 N = want.size();
    const bool zero = norm2(want) < 1e-9;
    auto name = [&](const char* s) { return who + s; };
    {
        Vec g;
        for (u64 i = 0; i < N; ++i) {
            const complex x = q->GetAmplitude((bitCapInt)i);
            g.push_back(cd(x.real(), x.imag()));
        }
        same(g, want, any, name("GetAmplitude").c_str());
    }
    const u64 ranges[][2] = { { 0, N }, { N / 2, N / 2 }, { 1, N - 1 }, { N / 2 - 1, 2 }, { N - 1, 1 } };
    Vec whole;
    for (auto& r : ranges) {
        std::vector<complex> b(r[1] + 2, complex(7.5f, 1));
        q->GetAmplitudePage(b.data() + 1, r[0], r[1]);
        MC_CHECK(b.front() == complex(7.5f, 1) && b.back() == complex(7.5f, 1), "%sGetAmplitudePage writes outside its range", who.c_str());
        Vec g;
        for (u64 i = 1; i + 1 < b.size(); ++i)
            g.push_back(cd(b[i].real(), b[i].imag()));
        if (r[1] == N) {
            same(g, want, any, name("GetAmplitudePage").c_str());
            whole = g;
        } else
            same(g, Vec(whole.begin() + r[0], whole.begin() + r[0] + r[1]), false, name(fmt("GetAmplitudePage(%llu,%llu)", r[0], r[1]).c_str()).c_str());
    }
    const Vec s = implState(q);
    same(s, any ? unit(want) : want, pager, name("GetQuantumState").c_str()); // (pagers do not normalize when reading)
    const double scale = pager && !zero ? 1 / norm2(s) : 1;
    std::vector<Qrack::real1> p(N + 1, 7.5f);
    q->GetProbs(p.data());
    MC_CHECK(p[N] == 7.5f, "GetProbs writes past the end");
    for (u64 i = 0; i < N; ++i) {
        const double x = std::norm((any ? unit(want) : want)[i]);
        MC_CHECK(std::fabs(p[i] * scale - x) < 1e-3, "%sGetProbs[%llu] is %.5f, not %.5f", who.c_str(), i, (double)p[i], x);
        if (!zero)
            MC_CHECK(std::fabs(q->ProbAll((bitCapInt)i) * (pager ? 1 / norm2(implState(q)) : 1) - x) < 1e-3 || norm2(s) > 1.0001, "%sProbAll(%llu) is %.5f, not %.5f", who.c_str(), i, (double)q->ProbAll((bitCapInt)i), x);
    }
    MC_CHECK(!q->IsZeroAmplitude() || zero, "%sIsZeroAmplitude() is true", who.c_str());
}

static Suite engines(const Stack& st0, int n, int len)
{
    Suite s;
    s.name = fmt("engines%d/%d/", n, len) + st0.name;
    s.env = st0.env;
    auto A = std::make_shared<std::vector<WOp>>(engineOps(n));
    u64 N = 1;
    for (int i = 0; i < len; ++i)
        N *= A->size();
    s.count = N;
    auto sp = std::make_shared<Stack>(st0);
    sp->randPhase = false;
    s.run = [=](u64 i) {
        World w;
        w.st = sp.get();
        w.n = n;
        w.c.start(*sp, n, 1);
        w.e.start(*sp, n, 0);
        for (int t = 0; t < n; ++t) {
            w.e.q->RY(.4f + .5f * t, t);
            w.e.r.g1(t, mRY(.4 + .5 * t));
        }
        w.c.q->H(1);
        w.c.r.g1(1, mH());
        w.e.q->S(0);
        w.e.r.g1(0, mP(PI / 2));
        for (int j = 0; j < len; ++j, i /= A->size())
        {
            (*A)[i % A->size()].f(w);
            if (w.undefined)
                return;
        }
        transition(len);
        readAll(w, w.q(), w.a(), "");
        readAll(w, w.k(), w.b(), "other: ");
        visited(w.c.r.hash());
    };
    s.describe = [=](u64 i) {
        std::string d;
        for (int j = 0; j < len; ++j, i /= A->size())
            d += (j ? "; " : "") + (*A)[i % A->size()].name;
        return d;
    };
    return s;
}

// ------------------------------------------------------------------ every stack: whole states and single amplitudes
static Suite whole(const Stack& st0, int n, const std::vector<Alphabet>& preps, int len)
{
    Suite s;
    s.name = fmt("whole%d/%d/", n, len) + st0.name;
    s.env = st0.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto A = std::make_shared<Alphabet>(coreAlphabet(n, st0.clifford, false));
    struct W {
        std::string name;
        std::function<void(Ctx&)> f;
    };
    auto S = std::make_shared<std::vector<W>>();
    const u64 N = 1ULL << n;
    auto set = [&](const std::string& nm, const Vec& v) {
        S->push_back({ "SetQuantumState(" + nm + ")", [=](Ctx& c) { c.q->SetQuantumState(narrow(v).data()); c.r.a = v; } });
    };
    const bool tree = st0.name.find("bdt") != std::string::npos; // (always normalized, so it is after each SetAmplitude)
    if (!st0.clifford && st0.name.find("tensor") == std::string::npos) { // (not implemented in QTensorNetwork)
        for (int k = 0; k < 4; ++k)
            set(fmt("%d", k), someState(n, k));
        Vec bell(N);
        bell[0] = bell[N - 1] = std::sqrt(.5);
        set("ghz", bell);
        for (int k = 1; k < 4; ++k) { // (X and Y eigenstates, products of the same)
            Vec x(N);
            for (u64 i = 0; i < N; ++i)
                x[i] = std::polar(1 / std::sqrt((double)N), PI / 2 * k * __builtin_popcountll(i));
            set(fmt("product of |0> + i^%d|1>", k), x);
        }
        Vec anti(N);
        anti[1] = std::sqrt(.5);
        anti[N - 2] += cd(0, std::sqrt(.5));
        anti = unit(anti);
        set("|1> + i|N-2>", anti);
    }
    for (u64 p = 0; p < N; ++p) {
        S->push_back({ fmt("SetPermutation(%llu)", p), [=](Ctx& c) { c.q->SetPermutation((bitCapInt)p); c.r.a.assign(N, 0); c.r.a[p] = 1; } });
        S->push_back({ fmt("SetPermutation(%llu, i)", p), [=](Ctx& c) { c.q->SetPermutation((bitCapInt)p, complex(0, 1)); c.r.a.assign(N, 0); c.r.a[p] = cd(0, 1); } });
    }
    if (st0.alu && st0.name.find("tensor") == std::string::npos && st0.name.find("noisy") == std::string::npos && !st0.clifford)
        for (int order = 0; order < 3; ++order)
            S->push_back({ fmt("SetAmplitude of all, order %d", order), [=](Ctx& c) {
                              // (the state in between is not normalized)
                              const Vec v = someState(n, 0);
                              for (u64 i = 0; i < N; ++i) {
                                  const u64 k = order == 0 ? i : order == 1 ? N - 1 - i : i * 3 % N;
                                  c.q->SetAmplitude((bitCapInt)k, cc(v[k]));
                                  c.r.a[k] = v[k];
                                  if (tree)
                                      c.r.a = unit(c.r.a);
                              }
                          } });
    u64 M = P->size() * S->size();
    for (int i = 0; i < len; ++i)
        M *= A->size();
    s.count = M;
    const Stack* sp = &st0;
    s.run = [=](u64 i) {
        Ctx c;
        c.start(*sp, n);
        for (auto& o : (*P)[i % P->size()])
            o.f(c);
        i /= P->size();
        (*S)[i % S->size()].f(c);
        i /= S->size();
        for (int j = 0; j < len; ++j, i /= A->size())
            (*A)[i % A->size()].f(c);
        transition(len + 1);
        for (int round = 0; round < 2; ++round) { // (reading leaves it as it is)
            std::vector<Qrack::real1> p(N + 1, 7.5f);
            c.q->GetProbs(p.data());
            MC_CHECK(p[N] == 7.5f, "GetProbs writes past the end");
            Vec g;
            for (u64 k = 0; k < N; ++k) {
                const complex x = c.q->GetAmplitude((bitCapInt)k);
                g.push_back(cd(x.real(), x.imag()));
                const double want = std::norm(c.r.a[k]);
                MC_CHECK(std::fabs(p[k] - want) < 1e-3, "GetProbs[%llu] is %.5f, not %.5f", k, (double)p[k], want);
            }
            for (u64 k = 0; k < N; ++k) { // (may change the global phase, if it is random)
                const double want = std::norm(c.r.a[k]), pa = c.q->ProbAll((bitCapInt)k);
                MC_CHECK(std::fabs(pa - want) < 1e-3, "ProbAll(%llu) is %.5f, not %.5f", k, pa, want);
            }
            const double d = distance(g, c.r.a);
            MC_CHECK(d < c.tol, "GetAmplitude differs by %.4g\n   got      %s\n   expected %s", d, show(g).c_str(), show(c.r.a).c_str());
            compareState(c.q, c.r, c.tol, "GetQuantumState");
        }
        visited(c.r.hash());
    };
    s.describe = [=](u64 i) {
        std::string d = (*P)[i % P->size()][0].name;
        i /= P->size();
        d += "; " + (*S)[i % S->size()].name;
        i /= S->size();
        for (int j = 0; j < len; ++j, i /= A->size())
            d += "; " + (*A)[i % A->size()].name;
        return d;
    };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C16", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "engines that normalize may do so at any call, so their amplitudes are compared up to a positive factor",
        "a state of norm 0 is not measured" };
    for (const char* nm : { "cpu", "cpu-nonorm", "cpu-async", "pager-cpu", "pager1-cpu", "pager2-cpu" }) {
        const Stack& st = stackByName(nm);
        R.explore(engines(st, 2, T ? 4 : 3));
        R.explore(engines(st, 3, T ? 3 : 2));
    }
    for (const Stack& st : allStacks()) {
        const bool slow = st.slow > 1;
        R.explore(whole(st, 1, prepMenu(1, st.clifford, true), 2));
        R.explore(whole(st, 2, prepMenu(2, st.clifford, !T), T && !slow ? 3 : 2));
        R.explore(whole(st, 3, prepMenu(3, st.clifford, true), 0));
        if (T)
            R.explore(whole(st, 3, prepMenu(3, st.clifford, true), 1));
    }
    return R.finish();
}
