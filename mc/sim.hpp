// Reference model (dense double precision state vector, deliberately boring) and construction of the real simulators.
#pragma once
#include "core.hpp"

#include "qfactory.hpp"

#include <random>

// The number of cores the simulator sees is part of the configuration, not of the machine (and the C library's own answer
// costs three system calls per simulator constructed).
#ifndef MC_OWN_CONCURRENCY
#include <thread>
inline unsigned mcCores = 4;
extern "C" __attribute__((used, visibility("default"))) unsigned mc_hw() asm("_ZNSt6thread20hardware_concurrencyEv");
extern "C" inline unsigned mc_hw() { return mcCores; }
#endif

// std::random_device (multi-shot sampling seeds its generators from it) answers from a script, too: every device object
// hands out the seed chosen for it, and the seeds are picked so that the first uniform double drawn from a
// std::mt19937 seeded with them lies at the wanted place.
namespace mc {
struct RandomDeviceScript {
    std::vector<double> answers; // per device object, in order of construction
    double rest = 0.4371;
    int constructed = 0; // since script()
    std::vector<uint32_t> seeds; // by cell of a 256-cell grid
    static const int CELLS = 256;
    void prepare()
    {
        if (!seeds.empty())
            return;
        seeds.assign(CELLS, 0);
        std::vector<double> best(CELLS, 9);
        for (uint32_t s = 1; s < 6000; ++s) {
            std::mt19937 g(s);
            double v = std::generate_canonical<double, 53>(g) * CELLS;
            int c = (int)v;
            double d = std::fabs(v - c - 0.5);
            if (c < CELLS && d < best[c])
                best[c] = d, seeds[c] = s;
        }
    }
    uint32_t seed(int obj)
    {
        prepare();
        double v = obj >= 0 && obj < (int)answers.size() ? answers[obj] : rest;
        int c = (int)(v * CELLS);
        return seeds[c < 0 ? 0 : c >= CELLS ? CELLS - 1 : c];
    }
    void script(const std::vector<double>& a, double r = 0.4371)
    {
        answers = a;
        rest = r;
        constructed = 0;
    }
};
inline RandomDeviceScript rdScript;
} // namespace mc
extern "C" {
__attribute__((used)) inline unsigned mc_rd_get(void*) asm("_ZNSt13random_device9_M_getvalEv");
__attribute__((used)) inline unsigned mc_rd_get(void*) { return mc::rdScript.seed(mc::rdScript.constructed - 1); }
__attribute__((used)) inline void mc_rd_init(void*, const std::string&) asm(
    "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
__attribute__((used)) inline void mc_rd_init(void*, const std::string&) { ++mc::rdScript.constructed; }
__attribute__((used)) inline void mc_rd_fini(void*) asm("_ZNSt13random_device7_M_finiEv");
__attribute__((used)) inline void mc_rd_fini(void*) {}
}

namespace mc {
using namespace Qrack;

typedef std::vector<bitLenInt> Bits;

struct M2 {
    cd m[4];
};

struct Ref {
    int n = 0;
    std::vector<cd> a;
    explicit Ref(int nq = 0, u64 perm = 0)
        : n(nq)
        , a(1ULL << nq, cd(0))
    {
        a[perm] = 1;
    }
    u64 size() const { return a.size(); }
    void ctl(u64 cmask, u64 cval, int t, const M2& g)
    {
        const u64 b = 1ULL << t;
        for (u64 i = 0; i < a.size(); ++i) {
            if ((i & b) || ((i & cmask) != cval))
                continue;
            cd x = a[i], y = a[i | b];
            a[i] = g.m[0] * x + g.m[1] * y;
            a[i | b] = g.m[2] * x + g.m[3] * y;
        }
    }
    void g1(int t, const M2& g) { ctl(0, 0, t, g); }
    // |i> -> amp * |f(i)>
    void perm(const std::function<u64(u64)>& f)
    {
        std::vector<cd> o(a.size(), cd(0));
        for (u64 i = 0; i < a.size(); ++i)
            o[f(i)] += a[i];
        a.swap(o);
    }
    void diag(const std::function<cd(u64)>& f)
    {
        for (u64 i = 0; i < a.size(); ++i)
            a[i] *= f(i);
    }
    // general operator on two qubits: basis order |q2 q1> = 00,01(q1=1),10(q2=1),11
    void g2(int q1, int q2, const cd m[16], u64 cmask = 0, u64 cval = 0)
    {
        const u64 b1 = 1ULL << q1, b2 = 1ULL << q2;
        for (u64 i = 0; i < a.size(); ++i) {
            if ((i & b1) || (i & b2) || ((i & cmask) != cval))
                continue;
            u64 x[4] = { i, i | b1, i | b2, i | b1 | b2 };
            cd v[4];
            for (int k = 0; k < 4; ++k)
                v[k] = a[x[k]];
            for (int k = 0; k < 4; ++k)
                a[x[k]] = m[4 * k] * v[0] + m[4 * k + 1] * v[1] + m[4 * k + 2] * v[2] + m[4 * k + 3] * v[3];
        }
    }
    double prob(u64 mask, u64 val) const
    {
        double p = 0;
        for (u64 i = 0; i < a.size(); ++i)
            if ((i & mask) == val)
                p += std::norm(a[i]);
        return p;
    }
    double probIf(const std::function<bool(u64)>& f) const
    {
        double p = 0;
        for (u64 i = 0; i < a.size(); ++i)
            if (f(i))
                p += std::norm(a[i]);
        return p;
    }
    double norm() const { return prob(0, 0); }
    void normalize()
    {
        double s = 1 / std::sqrt(norm());
        for (auto& x : a)
            x *= s;
    }
    void projectIf(const std::function<bool(u64)>& f)
    {
        for (u64 i = 0; i < a.size(); ++i)
            if (!f(i))
                a[i] = 0;
        normalize();
    }
    void project(u64 mask, u64 val)
    {
        projectIf([=](u64 i) { return (i & mask) == val; });
    }
    // insert o's qubits so that its qubit 0 lands at index `start`
    void compose(const Ref& o, int start)
    {
        std::vector<cd> r(a.size() * o.a.size());
        const u64 lo = (1ULL << start) - 1;
        for (u64 i = 0; i < a.size(); ++i)
            for (u64 j = 0; j < o.a.size(); ++j)
                r[(i & lo) | (j << start) | ((i & ~lo) << o.n)] = a[i] * o.a[j];
        a.swap(r);
        n += o.n;
    }
    // purity-based separability of range: returns largest |amplitude| factorisation error
    // split off [start, start+len): requires a product state; returns the two factors
    bool split(int start, int len, Ref& part, Ref& rest) const
    {
        const u64 lo = (1ULL << start) - 1, pm = (1ULL << len) - 1;
        // find the biggest amplitude as pivot
        u64 best = 0;
        for (u64 i = 1; i < a.size(); ++i)
            if (std::norm(a[i]) > std::norm(a[best]))
                best = i;
        u64 bp = (best >> start) & pm;
        part = Ref(len);
        rest = Ref(n - len);
        u64 br = (best & lo) | ((best >> (start + len)) << start);
        auto idx = [&](u64 r, u64 p) { return (r & lo) | (p << start) | ((r & ~lo) << len); };
        for (u64 p = 0; p < part.a.size(); ++p)
            part.a[p] = a[idx(br, p)];
        for (u64 r = 0; r < rest.a.size(); ++r)
            rest.a[r] = a[idx(r, bp)];
        part.normalize();
        rest.normalize();
        // verify
        double ov = 0;
        cd in = 0;
        for (u64 p = 0; p < part.a.size(); ++p)
            for (u64 r = 0; r < rest.a.size(); ++r)
                in += std::conj(part.a[p] * rest.a[r]) * a[idx(r, p)];
        ov = std::norm(in);
        return ov > 1 - 1e-9;
    }
    u64 hash() const
    {
        // canonical up to global phase: rotate the first largest amplitude to be real positive
        u64 b = 0;
        double m = 0;
        for (u64 i = 0; i < a.size(); ++i)
            if (std::norm(a[i]) > m + 1e-6) {
                m = std::norm(a[i]);
                b = i;
            }
        cd ph = std::abs(a[b]) > 0 ? std::conj(a[b]) / std::abs(a[b]) : cd(1);
        u64 h = 1234 + n;
        for (u64 i = 0; i < a.size(); ++i) {
            cd v = a[i] * ph;
            h = mix(h, (u64)(int64_t)std::llround(v.real() * 2000));
            h = mix(h, (u64)(int64_t)std::llround(v.imag() * 2000));
        }
        return h;
    }
};

inline std::string show(const std::vector<cd>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 32; ++i)
        s += fmt("%s%.3f%+.3fi", i ? " " : "", v[i].real(), v[i].imag());
    return s + "]";
}

// distance up to global phase; NaN-safe (NaN gives a huge distance)
inline double distance(const std::vector<cd>& impl, const std::vector<cd>& ref)
{
    cd in = 0;
    for (size_t i = 0; i < ref.size(); ++i)
        in += std::conj(ref[i]) * impl[i];
    double ab = std::abs(in);
    if (!(ab > 1e-3))
        return 2;
    cd ph = std::conj(in) / ab;
    double d = 0;
    for (size_t i = 0; i < ref.size(); ++i) {
        double e = std::abs(impl[i] * ph - ref[i]);
        if (!(e <= d))
            d = e;
    }
    return d == d ? d : 2;
}

inline bool exactPhaseNow = false;
inline double exactDistance(const std::vector<cd>& impl, const std::vector<cd>& ref)
{
    double d = 0;
    for (size_t i = 0; i < ref.size(); ++i) {
        double e = std::abs(impl[i] - ref[i]);
        if (!(e <= d))
            d = e;
    }
    return d == d ? d : 2;
}

// ------------------------------------------------------------------ controlled randomness
// The simulators draw every random number as uniform_real_distribution<float>(0,1) over a shared mt19937_64, one 64-bit
// word per draw.  Writing inverse-tempered words into the generator state therefore dictates the next 312 answers.
struct Rng {
    qrack_rand_gen_ptr g;
    struct Layout {
        uint64_t x[312];
        uint64_t p;
    };
    static_assert(sizeof(Layout) == sizeof(std::mt19937_64), "unexpected mt19937_64 layout");
    static uint64_t untemper(uint64_t y)
    {
        y ^= y >> 43;
        uint64_t t = y;
        // y ^= (y << 37) & 0xFFF7EEE000000000
        y ^= (t << 37) & 0xFFF7EEE000000000ULL;
        // y ^= (y << 17) & 0x71D67FFFEDA60000
        t = y;
        for (int i = 0; i < 4; ++i)
            t = y ^ ((t << 17) & 0x71D67FFFEDA60000ULL);
        y = t;
        // y ^= (y >> 29) & 0x5555555555555555
        t = y;
        for (int i = 0; i < 3; ++i)
            t = y ^ ((t >> 29) & 0x5555555555555555ULL);
        return t;
    }
    Rng()
        : g(std::make_shared<std::mt19937_64>(20240607ULL))
    {
    }
    static const Layout& base()
    {
        static Layout l;
        static bool init = false;
        if (!init) {
            std::mt19937_64 m(77);
            m();
            memcpy(&l, &m, sizeof l);
            l.p = 0;
            init = true;
        }
        return l;
    }
    // the next draws are r[0], r[1], ...; afterwards `rest`
    void script(const std::vector<double>& r, double rest = 0.4371)
    {
        Layout l;
        uint64_t dflt = word(rest);
        for (size_t i = 0; i < 312; ++i)
            l.x[i] = i < r.size() ? word(r[i]) : dflt;
        l.p = 0;
        memcpy((void*)g.get(), &l, sizeof l);
    }
    void fixed() { memcpy((void*)g.get(), &base(), sizeof(Layout)); }
    static uint64_t word(double r)
    {
        long double v = (long double)r * 18446744073709551616.0L;
        if (v < 0)
            v = 0;
        if (v > 18446744073709549568.0L)
            v = 18446744073709549568.0L;
        return untemper((uint64_t)v);
    }
    // number of words consumed since script()
    u64 consumed() const
    {
        Layout l;
        memcpy(&l, (const void*)g.get(), sizeof l);
        return l.p;
    }
    static bool selfTest()
    {
        Rng r;
        for (double v : { 0.0, 0.125, 0.5, 0.7312, 0.999 }) {
            r.script({ v, 0.25 }, 0.75);
            std::uniform_real_distribution<float> d(0, 1);
            if (std::fabs(d(*r.g) - v) > 1e-6 || std::fabs(d(*r.g) - 0.25) > 1e-6 || std::fabs(d(*r.g) - 0.75) > 1e-6 ||
                r.consumed() != 3)
                return false;
        }
        return true;
    }
};

// ------------------------------------------------------------------ simulator stacks
struct Stack {
    std::string name;
    std::vector<QInterfaceEngine> engines;
    bool clifford = false; // only Clifford operations are defined
    bool doNorm = true;
    bool sparse = false;
    bool randPhase = true;
    std::vector<std::pair<std::string, std::string>> env;
    double tol = 1e-3;
    bool exactPhase = false; // compare without discarding the global phase
    bool alu = true; // implements QAlu / QParity
    double slow = 1; // relative cost of one execution
    int threshold = 0; // qubits per page / hybrid switching threshold (0: default)

    QInterfacePtr make(int n, u64 perm, Rng& rng) const
    {
        return CreateQuantumInterface(engines, (bitLenInt)n, (bitCapInt)perm, rng.g, randPhase ? CMPLX_DEFAULT_ARG : ONE_CMPLX, doNorm, randPhase, false,
            -1, false, sparse, REAL1_EPSILON, std::vector<int64_t>{}, (bitLenInt)threshold);
    }
};

inline const std::vector<Stack>& allStacks()
{
    static std::vector<Stack> v;
    if (!v.empty())
        return v;
    auto add = [&](const std::string& n, std::vector<QInterfaceEngine> e) -> Stack& {
        Stack s;
        s.name = n;
        s.engines = e;
        v.push_back(s);
        return v.back();
    };
    add("cpu", { QINTERFACE_CPU });
    add("cpu-sparse", { QINTERFACE_CPU }).sparse = true;
    add("cpu-nonorm", { QINTERFACE_CPU }).doNorm = false;
    {
        Stack& s = add("cpu-phase", { QINTERFACE_CPU });
        s.randPhase = false;
    }
    add("qunit-cpu", { QINTERFACE_QUNIT, QINTERFACE_CPU });
    {
        Stack& s = add("qunit-cpu-phase", { QINTERFACE_QUNIT, QINTERFACE_CPU });
        s.randPhase = false;
    }
    add("stabhybrid-cpu", { QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU });
    add("qunit-stabhybrid-cpu", { QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU });
    add("bdt", { QINTERFACE_BDT, QINTERFACE_CPU });
    add("qunit-bdt", { QINTERFACE_QUNIT, QINTERFACE_BDT, QINTERFACE_CPU });
    add("bdthybrid-cpu", { QINTERFACE_BDT_HYBRID, QINTERFACE_CPU });
    add("qunit-bdthybrid-cpu", { QINTERFACE_QUNIT, QINTERFACE_BDT_HYBRID, QINTERFACE_CPU });
    add("pager-cpu", { QINTERFACE_QPAGER, QINTERFACE_CPU });
    {
        Stack& s = add("pager1-cpu", { QINTERFACE_QPAGER, QINTERFACE_CPU });
        s.threshold = 1;
        s.slow = 10;
    }
    {
        Stack& s = add("pager2-cpu", { QINTERFACE_QPAGER, QINTERFACE_CPU });
        s.threshold = 2;
        s.slow = 10;
    }
    add("qunit-pager-cpu", { QINTERFACE_QUNIT, QINTERFACE_QPAGER, QINTERFACE_CPU });
    {
        Stack& s = add("qunit-pager1-cpu", { QINTERFACE_QUNIT, QINTERFACE_QPAGER, QINTERFACE_CPU });
        s.threshold = 1;
        s.slow = 10;
    }
    {
        Stack& s = add("tensornetwork", { QINTERFACE_TENSOR_NETWORK, QINTERFACE_QUNIT, QINTERFACE_CPU });
        s.alu = false;
    }
    {
        // single-qubit queries and measurements run only the past light cone of the qubit
        Stack& s = add("tensornetwork-lc", { QINTERFACE_TENSOR_NETWORK, QINTERFACE_QUNIT, QINTERFACE_CPU });
        s.alu = false;
        s.env = { { "QRACK_QTENSORNETWORK_THRESHOLD_QB", "1" } };
    }
    {
        Stack& s = add("stabilizer", { QINTERFACE_STABILIZER });
        s.clifford = true;
        s.alu = false;
    }
    {
        Stack& s = add("qunitclifford", { QINTERFACE_QUNIT_CLIFFORD });
        s.clifford = true;
        s.alu = false;
    }
    {
        Stack& s = add("noisy-cpu", { QINTERFACE_NOISY, QINTERFACE_CPU });
        s.env = { { "QRACK_GATE_DEPOLARIZATION", "0" } };
        s.alu = false;
    }
    {
        // every gate goes through the work queue and through several threads
        Stack& s = add("cpu-async", { QINTERFACE_CPU });
        s.env = { { "QRACK_PSTRIDEPOW", "2" } };
        s.slow = 20;
    }
    return v;
}
inline const Stack& stackByName(const std::string& n)
{
    for (auto& s : allStacks())
        if (s.name == n)
            return s;
    fprintf(stderr, "no stack %s\n", n.c_str());
    abort();
}

struct Ctx {
    const Stack* st = nullptr;
    QInterfacePtr q;
    Ref r{ 0 };
    Rng rng;
    double tol = 1e-3;

    void start(const Stack& s, int n, u64 perm = 0)
    {
        st = &s;
        exactPhaseNow = s.exactPhase;
        tol = s.tol;
        rng.fixed();
        rdScript.script({});
        q = s.make(n, perm, rng);
        r = Ref(n, perm);
    }
};

inline std::vector<cd> implState(QInterfacePtr q)
{
    const u64 N = 1ULL << q->GetQubitCount();
    std::vector<complex> b(N + 1, complex(0, 0));
    b[N] = complex(7.5f, -3.25f); // canary
    q->GetQuantumState(b.data());
    MC_CHECK(b[N] == complex(7.5f, -3.25f), "GetQuantumState wrote past the end of its buffer");
    std::vector<cd> o(N);
    for (u64 i = 0; i < N; ++i)
        o[i] = cd(b[i].real(), b[i].imag());
    return o;
}

inline bool probsNow = false; // each qubit's probability is compared too
inline void compareState(QInterfacePtr q, const Ref& r, double tol, const char* what = "state")
{
    MC_CHECK((int)q->GetQubitCount() == r.n, "%s: qubit count is %d, expected %d", what, (int)q->GetQubitCount(), r.n);
    // (first what the layers have cached, then what they hold)
    for (int i = 0; probsNow && i < r.n; ++i) {
        const double e = r.prob(1ULL << i, 1ULL << i), g = q->Prob((bitLenInt)i);
        MC_CHECK(std::abs(g - e) <= 2 * tol + 1e-4, "%s: Prob(%d) is %.5f, not %.5f", what, i, g, e);
    }
    std::vector<cd> s = implState(q);
    double d = exactPhaseNow ? exactDistance(s, r.a) : distance(s, r.a);
    MC_CHECK(d <= tol, "%s differs from the reference by %.4g\n   got      %s\n   expected %s", what, d, show(s).c_str(),
        show(r.a).c_str());
    deviation(d);
}

struct Op {
    std::string name;
    std::function<void(Ctx&)> f;
};
typedef std::vector<Op> Alphabet;

// all sequences of length exactly L over `A`, after each of the start sequences
inline std::string seqName(const Alphabet& A, const std::vector<int>& s)
{
    std::string o;
    for (int i : s)
        o += (o.empty() ? "" : "; ") + A[i].name;
    return o;
}

// ------------------------------------------------------------------ gate matrices
inline const double PI = 3.14159265358979323846;
inline M2 mH() { double s = std::sqrt(0.5); return { { s, s, s, -s } }; }
inline M2 mX() { return { { 0, 1, 1, 0 } }; }
inline M2 mY() { return { { 0, cd(0, -1), cd(0, 1), 0 } }; }
inline M2 mZ() { return { { 1, 0, 0, -1 } }; }
inline M2 mP(double ang) { return { { 1, 0, 0, std::polar(1.0, ang) } }; }
inline M2 mul(const M2& a, const M2& b)
{
    return { { a.m[0] * b.m[0] + a.m[1] * b.m[2], a.m[0] * b.m[1] + a.m[1] * b.m[3], a.m[2] * b.m[0] + a.m[3] * b.m[2],
        a.m[2] * b.m[1] + a.m[3] * b.m[3] } };
}
inline M2 adj(const M2& a) { return { { std::conj(a.m[0]), std::conj(a.m[2]), std::conj(a.m[1]), std::conj(a.m[3]) } }; }
inline M2 scale(const M2& a, cd f) { return { { a.m[0] * f, a.m[1] * f, a.m[2] * f, a.m[3] * f } }; }
inline M2 mRX(double t) { return { { cos(t / 2), cd(0, -sin(t / 2)), cd(0, -sin(t / 2)), cos(t / 2) } }; }
inline M2 mRY(double t) { return { { cos(t / 2), -sin(t / 2), sin(t / 2), cos(t / 2) } }; }
inline M2 mRZ(double t) { return { { std::polar(1.0, -t / 2), 0, 0, std::polar(1.0, t / 2) } }; }
inline M2 mU(double th, double ph, double la)
{
    return { { cos(th / 2), -std::polar(1.0, la) * sin(th / 2), std::polar(1.0, ph) * sin(th / 2),
        std::polar(1.0, ph + la) * cos(th / 2) } };
}
inline M2 mAI(double az, double inc) { return mul(mul(mP(az), mRY(inc)), mP(-az)); }
inline M2 mSqrt(const M2& u) // principal square root for u with u*u = 1 : ((1+i) 1 + (1-i) u) / 2
{
    cd p(0.5, 0.5), m(0.5, -0.5);
    return { { p + m * u.m[0], m * u.m[1], m * u.m[2], p + m * u.m[3] } };
}
struct CM { // complex float matrix for the API
    complex m[4];
    CM(const M2& g)
    {
        for (int i = 0; i < 4; ++i)
            m[i] = complex((real1)g.m[i].real(), (real1)g.m[i].imag());
    }
};
inline complex cc(cd v) { return complex((real1)v.real(), (real1)v.imag()); }
inline u64 maskOf(const Bits& b)
{
    u64 m = 0;
    for (auto x : b)
        m |= 1ULL << x;
    return m;
}
// ordered selections of k distinct elements of 0..n-1
inline void placements(int n, int k, const std::function<void(const std::vector<int>&)>& f)
{
    std::vector<int> c(k);
    std::function<void(int)> rec = [&](int d) {
        if (d == k)
            return f(c);
        for (int i = 0; i < n; ++i) {
            bool dup = false;
            for (int j = 0; j < d; ++j)
                dup |= c[j] == i;
            if (!dup) {
                c[d] = i;
                rec(d + 1);
            }
        }
    };
    rec(0);
}

} // namespace mc
