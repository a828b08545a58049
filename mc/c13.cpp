// C13: the C API ("pinvoke") acts on the qubits named by their ids, whatever the history of the simulator
#include "gates.hpp"

#include <stddef.h>
// (the header defines init() without "inline")
#define init() mc_unused_api_init()
namespace api {
#include "pinvoke_api.hpp"
}
#undef init

#include <unistd.h>

using namespace mc;
using api::uintq;
typedef std::vector<uintq> VQ;
typedef std::vector<int> VI;

// ---------------------------------------------------------------- the world: simulators of the library and their models
struct Kind {
    const char* name;
    bool tn, sd, sh, bdt, nw;
    int how; // 0 init_count_type, 1 init_count, 2 init_count_pager
    bool grows; // can compose
    bool alu;
};
static const std::vector<Kind>& kinds()
{
    static const std::vector<Kind> k{
        { "unit-stabhybrid", false, true, true, false, false, 0, true, true },
        { "default(tn)", false, false, false, false, false, 1, false, false },
        { "stabhybrid", false, false, true, false, false, 0, true, true },
        { "unit", false, true, false, false, false, 0, true, true },
        { "cpu", false, false, false, false, false, 0, true, true },
        { "bdt", false, false, false, true, false, 0, true, true },
        { "unit-bdt", false, true, false, true, false, 0, true, true },
        { "tn-unit-stabhybrid", true, true, true, false, false, 0, false, false },
        { "init_count_pager", false, false, false, false, false, 2, false, false },
    };
    return k;
}
static uintq make(const Kind& k, uintq n)
{
    if (k.how == 1)
        return api::init_count(n, false);
    if (k.how == 2)
        return api::init_count_pager(n, false);
    return api::init_count_type(n, k.tn, false, k.sd, k.sh, k.bdt, false, k.nw, false, false, false);
}

struct Sim {
    uintq sid = 0;
    Ref r; // qubit k of the model ...
    VQ ids; // ... has this id
    bool live = true;
    int at(uintq id) const
    {
        for (size_t k = 0; k < ids.size(); ++k)
            if (ids[k] == id)
                return (int)k;
        return -1;
    }
};
struct World {
    std::vector<Sim> sims;
    std::vector<uintq> circuits, neurons;
    ~World()
    {
        for (uintq n : neurons)
            api::destroy_qneuron(n);
        for (uintq c : circuits)
            api::destroy_qcircuit(c);
        for (Sim& s : sims)
            if (s.live)
                api::destroy(s.sid);
    }
    Sim& add(uintq sid, int n)
    {
        Sim s;
        s.sid = sid;
        s.r = Ref(n);
        for (int i = 0; i < n; ++i)
            s.ids.push_back(i);
        sims.push_back(s);
        return sims.back();
    }
};
static std::string idStr(const VQ& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
static Bits unused(0);

static VQ dumped;
static void dumpId(uintq i) { dumped.push_back(i); }
static std::vector<cd> dumpedKet;
static bool dumpAmp(size_t, double re, double im)
{
    dumpedKet.push_back(cd(re, im));
    return true;
}
static std::vector<cd> ket(const Sim& s)
{
    const u64 N = s.r.size();
    std::vector<float> k(2 * N + 1, 7.5f);
    api::OutKet(s.sid, k.data());
    MC_CHECK(k[2 * N] == 7.5f, "OutKet writes past the end");
    std::vector<cd> v;
    for (u64 i = 0; i < N; ++i)
        v.push_back(cd(k[2 * i], k[2 * i + 1]));
    return v;
}
static void noError(const Sim& s, const char* what)
{
    const int e = api::get_error(s.sid);
    MC_CHECK(!e, "%s: get_error(%llu) is %d", what, (u64)s.sid, e);
}
static const double TOL = 4e-3;
// Compares the whole simulator, and ends its life: the position of every id is found out by resetting the simulator and
// flipping one qubit at a time.
static void compareAll(const Sim& s, bool failedBefore = false)
{
    if (!failedBefore)
        noError(s, "at the end");
    const int n = s.r.n;
    if (!n) {
        MC_CHECK(api::num_qubits(s.sid) == 0, "num_qubits is %llu, not 0", (u64)api::num_qubits(s.sid));
        return;
    }
    MC_CHECK(api::num_qubits(s.sid) == (uintq)n, "num_qubits is %llu, not %d", (u64)api::num_qubits(s.sid), n);
    dumped.clear();
    api::DumpIds(s.sid, dumpId);
    VQ want = s.ids, got = dumped;
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    MC_CHECK(want == got, "DumpIds gives %s, not %s", idStr(got).c_str(), idStr(want).c_str());
    for (int k = 0; k < n; ++k) {
        const double p = api::Prob(s.sid, s.ids[k]), w = s.r.prob(1ULL << k, 1ULL << k);
        MC_CHECK(std::fabs(p - w) < 1e-3, "Prob(%llu) is %.5f, not %.5f", (u64)s.ids[k], p, w);
    }
    const std::vector<cd> v = ket(s);
    api::ResetAll(s.sid);
    std::vector<int> pos(n, -1);
    u64 seen = 0;
    for (int k = 0; k < n; ++k) {
        api::X(s.sid, s.ids[k]);
        const std::vector<cd> b = ket(s);
        for (u64 i = 0; i < b.size(); ++i)
            if (std::norm(b[i]) > .9) {
                MC_CHECK(i && !(i & (i - 1)), "X(%llu) of the reset simulator gives the basis state %llu", (u64)s.ids[k], i);
                pos[k] = __builtin_ctzll(i);
            }
        MC_CHECK(pos[k] >= 0, "X(%llu) of the reset simulator gives no basis state: %s", (u64)s.ids[k], show(b).c_str());
        MC_CHECK(!((seen >> pos[k]) & 1), "ids %s: two ids are at position %d", idStr(s.ids).c_str(), pos[k]);
        seen |= 1ULL << pos[k];
        api::X(s.sid, s.ids[k]);
    }
    std::vector<cd> w(v.size());
    for (u64 i = 0; i < v.size(); ++i) {
        u64 j = 0;
        for (int k = 0; k < n; ++k)
            if ((i >> k) & 1)
                j |= 1ULL << pos[k];
        w[i] = v[j];
    }
    const double d = distance(w, s.r.a);
    MC_CHECK(d < TOL, "ids %s: state differs by %.4g\n   got      %s\n   expected %s", idStr(s.ids).c_str(), d, show(w).c_str(), show(s.r.a).c_str());
    deviation(d);
    if (!failedBefore)
        noError(s, "reset");
}

// ---------------------------------------------------------------- one call on listed qubits
struct Letter {
    std::string name;
    int k; // number of qubits it takes
    // call(sid, ids), model(ref, indices)
    std::function<void(uintq, uintq*)> call;
    std::function<void(Ref&, const VI&)> model;
    u64 zero = 0; // listed qubits that must hold 0 before (bit mask over the placement)
    bool refusable = false; // not every layer stack has it
};
typedef std::vector<Letter> Letters;
static void darr(const M2& g, double* m)
{
    for (int i = 0; i < 4; ++i)
        m[2 * i] = g.m[i].real(), m[2 * i + 1] = g.m[i].imag();
}
static u64 maskAt(const VI& p, int from, int to)
{
    u64 m = 0;
    for (int i = from; i < to; ++i)
        m |= 1ULL << p[i];
    return m;
}
static u64 valueAt(u64 b, const VI& p, int from, int len)
{
    u64 v = 0;
    for (int i = 0; i < len; ++i)
        v |= ((b >> p[from + i]) & 1) << i;
    return v;
}
static u64 setAt(u64 b, const VI& p, int from, int len, u64 v)
{
    for (int i = 0; i < len; ++i)
        b = (b & ~(1ULL << p[from + i])) | (((v >> i) & 1) << p[from + i]);
    return b;
}
static M2 basisOf(int pauli) // columns: eigenvectors of +1, -1
{
    return pauli == PauliX ? mH() : pauli == PauliY ? mul(mP(PI / 2), mH()) : mP(0);
}
static void parityPhase(Ref& r, const VI& p, const VI& b, double phi, u64 cm = 0)
{
    // exp(i phi P) with P the product of the Pauli operators, where all of cm are 1
    bool any = false;
    for (size_t i = 0; i < b.size(); ++i)
        if (b[i] != PauliI) {
            r.g1(p[i], adj(basisOf(b[i])));
            any = true;
        }
    r.diag([&](u64 x) {
        if ((x & cm) != cm)
            return cd(1);
        int par = 0;
        for (size_t i = 0; i < b.size(); ++i)
            if (b[i] != PauliI)
                par ^= (x >> p[i]) & 1;
        return any ? std::polar(1.0, par ? -phi : phi) : std::polar(1.0, phi);
    });
    for (size_t i = 0; i < b.size(); ++i)
        if (b[i] != PauliI)
            r.g1(p[i], basisOf(b[i]));
}
static M2 rot(int b, double phi)
{
    const double c = cos(phi / 2), s = sin(phi / 2);
    switch (b) {
    case PauliX:
        return { { c, cd(0, -s), cd(0, -s), c } };
    case PauliY:
        return { { c, -s, s, c } };
    case PauliZ:
        return { { std::polar(1.0, -phi / 2), 0, 0, std::polar(1.0, phi / 2) } };
    }
    return { { 1, 0, 0, 1 } };
}

static Letters gateLetters(int n)
{
    Letters L;
    auto l1 = [&](const char* nm, std::function<void(uintq, uintq)> f, M2 g) {
        L.push_back({ nm, 1, [=](uintq s, uintq* q) { f(s, q[0]); }, [=](Ref& r, const VI& p) { r.g1(p[0], g); } });
    };
    const M2 H = mH(), X = mX(), Y = mY(), Z = mZ(), S = mP(PI / 2), IS = mP(-PI / 2), T = mP(PI / 4), IT = mP(-PI / 4);
    const M2 U = mU(.9, .5, -.4), G = scale(mU(1.1, .3, -.8), std::polar(1.0, .35));
    const M2 SX = mul(mul(H, S), H), SY = mul(mul(S, SX), IS), ISX = adj(SX), ISY = adj(SY);
#define ONE(nm, g) l1(#nm, [](uintq s, uintq q) { api::nm(s, q); }, g)
    ONE(X, X), ONE(Y, Y), ONE(Z, Z), ONE(H, H), ONE(S, S), ONE(T, T), ONE(AdjS, IS), ONE(AdjT, IT);
    ONE(SX, SX), ONE(SY, SY), ONE(AdjSX, ISX), ONE(AdjSY, ISY);
    l1("U", [](uintq s, uintq q) { api::U(s, q, .9, .5, -.4); }, U);
    l1("Mtrx", [=](uintq s, uintq q) {
        double m[8];
        darr(G, m);
        api::Mtrx(s, m, q);
    }, G);
    for (int b : { (int)PauliX, (int)PauliY, (int)PauliZ, (int)PauliI })
        l1(b == PauliX ? "R(X)" : b == PauliY ? "R(Y)" : b == PauliZ ? "R(Z)" : "R(I)", [=](uintq s, uintq q) { api::R(s, b, .7, q); }, rot(b, .7));
    for (int k = 1; k <= std::min(2, n - 1); ++k) {
        auto lc = [&](const std::string& nm, bool anti, std::function<void(uintq, uintq*, uintq)> f, M2 g) {
            L.push_back({ nm + fmt("/%d", k), k + 1, [=](uintq s, uintq* q) { f(s, q, q[k]); },
                [=](Ref& r, const VI& p) {
                    const u64 m = maskAt(p, 0, k);
                    r.ctl(m, anti ? 0 : m, p[k], g);
                } });
        };
#define CTL(nm, g)                                                                                                     \
    lc("MC" #nm, false, [=](uintq s, uintq* c, uintq q) { api::MC##nm(s, k, c, q); }, g);                              \
    lc("MA" "C" #nm, true, [=](uintq s, uintq* c, uintq q) { api::MAC##nm(s, k, c, q); }, g)
        CTL(X, X);
        CTL(Y, Y);
        CTL(Z, Z);
        CTL(H, H);
        CTL(S, S);
        CTL(T, T);
        CTL(AdjS, IS);
        CTL(AdjT, IT);
        lc("MCU", false, [=](uintq s, uintq* c, uintq q) { api::MCU(s, k, c, q, .9, .5, -.4); }, U);
        lc("MACU", true, [=](uintq s, uintq* c, uintq q) { api::MACU(s, k, c, q, .9, .5, -.4); }, U);
        lc("MCMtrx", false, [=](uintq s, uintq* c, uintq q) {
            double m[8];
            darr(G, m);
            api::MCMtrx(s, k, c, m, q);
        }, G);
        lc("MACMtrx", true, [=](uintq s, uintq* c, uintq q) {
            double m[8];
            darr(G, m);
            api::MACMtrx(s, k, c, m, q);
        }, G);
        for (int b : { (int)PauliX, (int)PauliY, (int)PauliZ })
            lc(fmt("MCR(%d)", b), false, [=](uintq s, uintq* c, uintq q) { api::MCR(s, b, .7, k, c, q); }, rot(b, .7));
        for (u64 perm = 0; perm < (1ULL << k); ++perm)
            L.push_back({ fmt("UCMtrx/%d perm %llu", k, perm), k + 1, [=](uintq s, uintq* q) {
                             double m[8];
                             darr(G, m);
                             api::UCMtrx(s, k, q, m, q[k], perm);
                         },
                [=](Ref& r, const VI& p) {
                    u64 v = 0;
                    for (int i = 0; i < k; ++i)
                        v |= ((perm >> i) & 1) << p[i];
                    r.ctl(maskAt(p, 0, k), v, p[k], G);
                } });
        L.push_back({ fmt("Multiplex1Mtrx/%d", k), k + 1, [=](uintq s, uintq* q) {
                         std::vector<double> m(8 << k);
                         for (int j = 0; j < (1 << k); ++j)
                             darr(mU(.4 + .5 * j, .2 * j, -.3 + .4 * j), m.data() + 8 * j);
                         api::Multiplex1Mtrx(s, k, q, q[k], m.data());
                     },
            [=](Ref& r, const VI& p) {
                for (int j = 0; j < (1 << k); ++j) {
                    u64 v = 0;
                    for (int i = 0; i < k; ++i)
                        v |= ((u64)(j >> i) & 1) << p[i];
                    r.ctl(maskAt(p, 0, k), v, p[k], mU(.4 + .5 * j, .2 * j, -.3 + .4 * j));
                }
            } });
    }
    for (int k = 1; k <= n; ++k) {
        auto lm = [&](const char* nm, std::function<void(uintq, uintq*)> f, M2 g) {
            L.push_back({ fmt("%s/%d", nm, k), k, f, [=](Ref& r, const VI& p) {
                             for (int i : p)
                                 r.g1(i, g);
                         } });
        };
        lm("MX", [=](uintq s, uintq* q) { api::MX(s, k, q); }, X);
        lm("MY", [=](uintq s, uintq* q) { api::MY(s, k, q); }, Y);
        lm("MZ", [=](uintq s, uintq* q) { api::MZ(s, k, q); }, Z);
        L.push_back({ fmt("PhaseParity/%d", k), k, [=](uintq s, uintq* q) { api::PhaseParity(s, .7, k, q); },
            [=](Ref& r, const VI& p) {
                const u64 m = maskAt(p, 0, k);
                r.diag([=](u64 i) { return std::polar(1.0, __builtin_popcountll(i & m) & 1 ? .35 : -.35); });
            } });
        L.push_back({ fmt("PhaseRootN(3)/%d", k), k, [=](uintq s, uintq* q) { api::PhaseRootN(s, 3, k, q); },
            [=](Ref& r, const VI& p) {
                const u64 m = maskAt(p, 0, k);
                r.diag([=](u64 i) { return std::polar(1.0, -__builtin_popcountll(i & m) * PI / 4); });
            } });
        auto dft = [=](Ref& r, const VI& p, int sign) {
            const u64 N = 1ULL << k;
            std::vector<cd> o(r.a.size());
            for (u64 i = 0; i < r.a.size(); ++i) {
                const u64 x = valueAt(i, p, 0, k);
                for (u64 y = 0; y < N; ++y)
                    o[setAt(i, p, 0, k, y)] += r.a[i] * std::polar(1 / std::sqrt((double)N), sign * 2 * PI * (double)(x * y) / (double)N);
            }
            r.a = o;
        };
        auto rev = [=](Ref& r, const VI& p) {
            r.perm([=](u64 i) {
                u64 v = valueAt(i, p, 0, k), w = 0;
                for (int j = 0; j < k; ++j)
                    w |= ((v >> j) & 1) << (k - 1 - j);
                return setAt(i, p, 0, k, w);
            });
        };
        L.push_back({ fmt("QFT/%d", k), k, [=](uintq s, uintq* q) { api::QFT(s, k, q); }, [=](Ref& r, const VI& p) {
                         dft(r, p, -1);
                         rev(r, p);
                     } });
        L.push_back({ fmt("IQFT/%d", k), k, [=](uintq s, uintq* q) { api::IQFT(s, k, q); }, [=](Ref& r, const VI& p) {
                         rev(r, p);
                         dft(r, p, 1);
                     } });
        const int P[4] = { PauliI, PauliX, PauliY, PauliZ };
        for (int w = 0; w < (1 << (2 * k)); ++w) {
            VI b;
            std::string bs;
            for (int i = 0; i < k; ++i)
                b.push_back(P[(w >> (2 * i)) & 3]), bs += "IXYZ"[(w >> (2 * i)) & 3];
            if (k == 3 && bs != "XYZ" && bs != "ZIX" && bs != "YYI" && bs != "ZZZ" && bs != "III")
                continue;
            Letter l{ "Exp(" + bs + ")", k, [=](uintq s, uintq* q) {
                         VI bb = b;
                         api::Exp(s, k, bb.data(), .45, q);
                     },
                [=](Ref& r, const VI& p) { parityPhase(r, p, b, .45); } };
            l.refusable = true;
            L.push_back(l);
            if (bs.find_first_not_of('I') == std::string::npos) // (a controlled identity rotates by another angle)
                continue;
            for (int c = 1; c <= n - k; ++c) {
                Letter m{ fmt("MCExp/%d(", c) + bs + ")", k + c, [=](uintq s, uintq* q) {
                             VI bb = b;
                             api::MCExp(s, k, bb.data(), .45, c, q + k, q);
                         },
                    [=](Ref& r, const VI& p) { parityPhase(r, VI(p.begin(), p.begin() + k), b, .45, maskAt(p, k, k + c)); } };
                m.refusable = true;
                L.push_back(m);
            }
        }
    }
    // two qubits
    auto l2 = [&](const char* nm, std::function<void(uintq, uintq, uintq)> f, std::vector<cd> m) {
        L.push_back({ nm, 2, [=](uintq s, uintq* q) { f(s, q[0], q[1]); }, [=](Ref& r, const VI& p) { r.g2(p[0], p[1], m.data()); } });
    };
    l2("SWAP", [](uintq s, uintq a, uintq b) { api::SWAP(s, a, b); }, { 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1 });
    l2("ISWAP", [](uintq s, uintq a, uintq b) { api::ISWAP(s, a, b); }, { 1, 0, 0, 0, 0, 0, cd(0, 1), 0, 0, cd(0, 1), 0, 0, 0, 0, 0, 1 });
    l2("AdjISWAP", [](uintq s, uintq a, uintq b) { api::AdjISWAP(s, a, b); }, { 1, 0, 0, 0, 0, 0, cd(0, -1), 0, 0, cd(0, -1), 0, 0, 0, 0, 0, 1 });
    l2("FSim", [](uintq s, uintq a, uintq b) { api::FSim(s, .4, .9, a, b); },
        { 1, 0, 0, 0, 0, cos(.4), cd(0, -sin(.4)), 0, 0, cd(0, -sin(.4)), cos(.4), 0, 0, 0, 0, std::polar(1.0, -.9) });
    if (n < 3)
        return L;
    for (bool anti : { false, true })
        L.push_back({ anti ? "ACSWAP" : "CSWAP", 3, [=](uintq s, uintq* q) { (anti ? api::ACSWAP : api::CSWAP)(s, 1, q, q[1], q[2]); },
            [=](Ref& r, const VI& p) {
                r.perm([=](u64 i) -> u64 {
                    if (((i >> p[0]) & 1) == (anti ? 1u : 0u))
                        return i;
                    const u64 a = (i >> p[1]) & 1, b = (i >> p[2]) & 1;
                    return (i & ~(1ULL << p[1]) & ~(1ULL << p[2])) | (b << p[1]) | (a << p[2]);
                });
            } });
    auto bl = [&](const char* nm, std::function<void(uintq, uintq, uintq, uintq)> f, std::function<int(int, int)> v) {
        L.push_back({ nm, 3, [=](uintq s, uintq* q) { f(s, q[0], q[1], q[2]); }, [=](Ref& r, const VI& p) {
                         r.perm([=](u64 i) -> u64 { return i ^ ((u64)(v((i >> p[0]) & 1, (i >> p[1]) & 1) & 1) << p[2]); });
                     } });
    };
#define BL(nm, e)                                                                                                      \
    bl(#nm, [](uintq s, uintq a, uintq b, uintq o) { api::nm(s, a, b, o); }, [](int a, int b) -> int { return e; });   \
    for (bool c : { false, true })                                                                                     \
    L.push_back({ fmt("CL" #nm "(%d)", (int)c), 2, [=](uintq s, uintq* q) { api::CL##nm(s, c, q[0], q[1]); },          \
        [=](Ref& r, const VI& p) {                                                                                     \
            r.perm([=](u64 i) -> u64 { \
                const int a = c, b = (i >> p[0]) & 1;                                                                  \
                return i ^ ((u64)((e) & 1) << p[1]);                                                                   \
            });                                                                                                        \
        } })
    BL(AND, a & b);
    BL(OR, a | b);
    BL(XOR, a ^ b);
    BL(NAND, !(a & b));
    BL(NOR, !(a | b));
    BL(XNOR, !(a ^ b));
    return L;
}

static bool overflows(u64 x, u64 a, int l)
{
    auto sg = [&](u64 v) { return (long long)v - (((v >> (l - 1)) & 1) ? (1LL << l) : 0); };
    const long long t = sg(x) + sg(a);
    return t < -(1LL << (l - 1)) || t >= (1LL << (l - 1));
}
static Letters aluLetters(int n)
{
    Letters L;
    auto mk = [&](const std::string& nm, int k, std::function<void(uintq, uintq*)> call, std::function<u64(u64, const VI&, cd&)> f, u64 zero = 0, bool refusable = true) {
        Letter l{ nm, k, call, [=](Ref& r, const VI& p) {
                     std::vector<cd> o(r.a.size());
                     for (u64 i = 0; i < r.a.size(); ++i) {
                         cd ph = 1;
                         const u64 j = f(i, p, ph);
                         o[j] += ph * r.a[i];
                     }
                     r.a = o;
                 } };
        l.zero = zero;
        l.refusable = refusable;
        L.push_back(l);
    };
    for (int l = 1; l <= n; ++l) {
        const u64 M = (1ULL << l) - 1;
        for (int sub = 0; sub < 2; ++sub)
            for (u64 v = 1; v <= std::min<u64>(M, 3); v += 2) {
                mk(fmt("%s(%llu)/%d", sub ? "SUB" : "ADD", v, l), l, [=](uintq s, uintq* q) {
                    // (two words: the upper one is beyond every register)
                    uintq a[2] = { v, 0 };
                    (sub ? api::SUB : api::ADD)(s, 2, a, l, q);
                }, [=](u64 b, const VI& p, cd&) { return setAt(b, p, 0, l, (valueAt(b, p, 0, l) + (sub ? (u64)-(long long)v : v)) & M); }, 0, false);
                for (int c = 1; c <= n - l; ++c)
                    mk(fmt("%s(%llu)/%d/%d", sub ? "MCSUB" : "MCADD", v, c, l), l + c, [=](uintq s, uintq* q) {
                        uintq a[1] = { v };
                        (sub ? api::MCSUB : api::MCADD)(s, 1, a, c, q, l, q + c);
                    }, [=](u64 b, const VI& p, cd&) {
                        if (valueAt(b, p, 0, c) != (1ULL << c) - 1)
                            return b;
                        return setAt(b, p, c, l, (valueAt(b, p, c, l) + (sub ? (u64)-(long long)v : v)) & M);
                    }, 0, false);
                if (l < n)
                    mk(fmt("%s(%llu)/%d", sub ? "SUBS" : "ADDS", v, l), l + 1, [=](uintq s, uintq* q) {
                        uintq a[1] = { v };
                        (sub ? api::SUBS : api::ADDS)(s, 1, a, q[l], l, q);
                    }, [=](u64 b, const VI& p, cd& ph) {
                        const u64 w = (sub ? (u64)-(long long)v : v) & M, x = valueAt(b, p, 0, l);
                        if (((b >> p[l]) & 1) && overflows(x, w, l))
                            ph = -1;
                        return setAt(b, p, 0, l, (x + w) & M);
                    });
            }
        // a bijective table
        mk(fmt("Hash/%d", l), l, [=](uintq s, uintq* q) {
            std::vector<unsigned char> t;
            for (u64 x = 0; x <= M; ++x)
                t.push_back((unsigned char)((x * 3 + 1) & M));
            api::Hash(s, l, q, t.data());
        }, [=](u64 b, const VI& p, cd&) { return setAt(b, p, 0, l, (valueAt(b, p, 0, l) * 3 + 1) & M); });
    }
    // two registers, and controls after them
    for (int l = 1; 2 * l <= n; ++l) {
        const u64 M = (1ULL << l) - 1, out = M << l;
        for (int c = 0; c <= std::min(1, n - 2 * l); ++c) {
            const std::string t = fmt("/%d", l) + (c ? "+control" : "");
            auto on = [=](u64 b, const VI& p) { return !c || ((b >> p[2 * l]) & 1); };
            // q: placement[0..l), o: placement[l..2l)
            mk("MUL(3)" + t, 2 * l + c, [=](uintq s, uintq* q) {
                uintq a[1] = { 3 };
                c ? api::MCMUL(s, 1, a, 1, q + 2 * l, l, q, q + l) : api::MUL(s, 1, a, l, q, q + l);
            }, [=](u64 b, const VI& p, cd&) {
                if (!on(b, p))
                    return b;
                const u64 x = valueAt(b, p, 0, l) * 3;
                return setAt(setAt(b, p, 0, l, x & M), p, l, l, (x >> l) & M);
            }, out);
            mk("MULN(3)" + t, 2 * l + c, [=](uintq s, uintq* q) {
                uintq a[1] = { 3 }, m[1] = { M + 1 };
                c ? api::MCMULN(s, 1, a, 1, q + 2 * l, m, l, q, q + l) : api::MULN(s, 1, a, m, l, q, q + l);
            }, [=](u64 b, const VI& p, cd&) { return on(b, p) ? setAt(b, p, l, l, (valueAt(b, p, 0, l) * 3) & M) : b; }, out);
            mk("POWN(3)" + t, 2 * l + c, [=](uintq s, uintq* q) {
                uintq a[1] = { 3 }, m[1] = { M + 1 };
                c ? api::MCPOWN(s, 1, a, 1, q + 2 * l, m, l, q, q + l) : api::POWN(s, 1, a, m, l, q, q + l);
            }, [=](u64 b, const VI& p, cd&) {
                u64 w = 1;
                for (u64 e = valueAt(b, p, 0, l); e; --e)
                    w = w * 3;
                return on(b, p) ? setAt(b, p, l, l, w & M) : b;
            }, out);
            // and back: the inverse of the call before it
            for (int inv = 0; inv < 2; ++inv)
                mk(std::string(inv ? "MULN, DIVN" : "MUL, DIV") + t, 2 * l + c, [=](uintq s, uintq* q) {
                    uintq a[1] = { 3 }, m[1] = { M + 1 };
                    if (inv) {
                        c ? api::MCMULN(s, 1, a, 1, q + 2 * l, m, l, q, q + l) : api::MULN(s, 1, a, m, l, q, q + l);
                        c ? api::MCDIVN(s, 1, a, 1, q + 2 * l, m, l, q, q + l) : api::DIVN(s, 1, a, m, l, q, q + l);
                    } else {
                        c ? api::MCMUL(s, 1, a, 1, q + 2 * l, l, q, q + l) : api::MUL(s, 1, a, l, q, q + l);
                        c ? api::MCDIV(s, 1, a, 1, q + 2 * l, l, q, q + l) : api::DIV(s, 1, a, l, q, q + l);
                    }
                }, [=](u64 b, const VI& p, cd&) { return b; }, out);
        }
    }
    // indexed loads: index i, value v, (carry)
    static unsigned char table[8] = { 1, 2, 0, 3, 2, 1, 3, 0 };
    for (int i = 1; i <= 2; ++i)
        for (int v = 1; v <= 2; ++v) {
            if (i + v > n)
                continue;
            const u64 M = (1ULL << v) - 1, val = M << i;
            auto tv = [=](u64 b, const VI& p) -> u64 { return table[valueAt(b, p, 0, i)] & M; };
            auto tab = [=](unsigned char* t) {
                for (int j = 0; j < 8; ++j)
                    t[j] = table[j] & M;
            };
            mk(fmt("LDA/%d/%d", i, v), i + v, [=](uintq s, uintq* q) {
                unsigned char t[8];
                tab(t);
                api::LDA(s, i, q, v, q + i, t);
            }, [=](u64 b, const VI& p, cd&) { return setAt(b, p, i, v, tv(b, p)); }, val);
            if (i + v < n) {
                // (the carry is measured: it is 0 here)
                const u64 cz = 1ULL << (i + v);
                mk(fmt("ADC/%d/%d", i, v), i + v + 1, [=](uintq s, uintq* q) {
                    unsigned char t[8];
                    tab(t);
                    api::ADC(s, q[i + v], i, q, v, q + i, t);
                }, [=](u64 b, const VI& p, cd&) {
                    const u64 w = valueAt(b, p, i, v) + tv(b, p);
                    return setAt(setAt(b, p, i, v, w & M), p, i + v, 1, w > M);
                }, cz);
                mk(fmt("SBC/%d/%d", i, v), i + v + 1, [=](uintq s, uintq* q) {
                    unsigned char t[8];
                    tab(t);
                    api::SBC(s, q[i + v], i, q, v, q + i, t);
                }, [=](u64 b, const VI& p, cd&) {
                    const long long w = (long long)valueAt(b, p, i, v) - (long long)tv(b, p) - 1; // (the carry is 0: a borrow)
                    return setAt(setAt(b, p, i, v, (u64)w & M), p, i + v, 1, w >= 0);
                }, cz);
            }
        }
    return L;
}

// ---------------------------------------------------------------- layouts: histories that place the ids differently
struct Layout {
    std::string name;
    bool grows; // needs a simulator that can compose
    std::function<int(World&, const Kind&, int n)> make; // -> index of the simulator with n qubits to look at
};
static void place(Sim& s, const VQ& ids)
{
    s.ids = ids;
    s.r = Ref((int)ids.size());
}
// forgets qubit k of the model, which is |0> and unentangled
static void drop(Sim& s, int k)
{
    Ref part, rest;
    s.r.split(k, 1, part, rest);
    s.r = rest;
    s.ids.erase(s.ids.begin() + k);
}
static void rotateIds(Sim& s, const VI& order)
{
    // arithmetic on registers in another order re-orders the positions: v - v = v
    VQ q;
    for (int k : order)
        q.push_back(s.ids[k]);
    uintq a[1] = { 1 };
    api::ADD(s.sid, 1, a, q.size(), q.data());
    api::SUB(s.sid, 1, a, q.size(), q.data());
}
static std::vector<Layout> layouts()
{
    std::vector<Layout> L;
    L.push_back({ "counted", false, [](World& w, const Kind& k, int n) {
                     w.add(make(k, n), n);
                     return 0;
                 } });
    L.push_back({ "reordered by arithmetic", false, [](World& w, const Kind& k, int n) {
                     Sim& s = w.add(make(k, n), n);
                     VI o;
                     for (int i = 0; i < n; ++i)
                         o.push_back((i + n - 1) % n);
                     rotateIds(s, o);
                     return 0;
                 } });
    L.push_back({ "allocated 7, 65537, 1, 3, 65539", true, [](World& w, const Kind& k, int n) {
                     Sim& s = w.add(make(k, 0), 0);
                     const uintq ids[6] = { 7, 65537, 1, 3, 65539, 0 };
                     for (int i = 0; i < n; ++i)
                         api::allocateQubit(s.sid, ids[i]);
                     place(s, VQ(ids, ids + n));
                     return 0;
                 } });
    L.push_back({ "first released, another allocated", true, [](World& w, const Kind& k, int n) {
                     Sim& s = w.add(make(k, n), n);
                     api::allocateQubit(s.sid, 40);
                     MC_CHECK(api::release(s.sid, 0), "release of a qubit in |0> answers false");
                     VQ ids;
                     for (int i = 1; i < n; ++i)
                         ids.push_back(i);
                     ids.push_back(40);
                     place(s, ids);
                     return 0;
                 } });
    L.push_back({ "clone of a reordered one", false, [](World& w, const Kind& k, int n) {
                     Sim& o = w.add(make(k, n), n);
                     VI order;
                     for (int i = 0; i < n; ++i)
                         order.push_back((i + 1) % n);
                     rotateIds(o, order);
                     w.add(api::init_clone(o.sid), n);
                     return 1;
                 } });
    L.push_back({ "composed of two", true, [](World& w, const Kind& k, int n) {
                     w.add(make(k, n - 1), n - 1);
                     w.add(make(k, 1), 1);
                     uintq ids[1] = { 12 };
                     api::Compose(w.sims[0].sid, w.sims[1].sid, ids);
                     VQ all;
                     for (int i = 0; i + 1 < n; ++i)
                         all.push_back(i);
                     all.push_back(12);
                     place(w.sims[0], all);
                     return 0;
                 } });
    L.push_back({ "left after Decompose of two in the middle", true, [](World& w, const Kind& k, int n) {
                     w.add(make(k, n + 2), n + 2);
                     uintq q[2] = { 2, 0 };
                     w.add(api::Decompose(w.sims[0].sid, 2, q), 2);
                     VQ all{ 1 };
                     for (int i = 3; i < n + 2; ++i)
                         all.push_back(i);
                     place(w.sims[0], all);
                     return 0;
                 } });
    L.push_back({ "left after Dispose of the first", true, [](World& w, const Kind& k, int n) {
                     w.add(make(k, n + 1), n + 1);
                     uintq q[1] = { 0 };
                     api::Dispose(w.sims[0].sid, 1, q);
                     VQ all;
                     for (int i = 1; i < n + 1; ++i)
                         all.push_back(i);
                     place(w.sims[0], all);
                     return 0;
                 } });
    L.push_back({ "separated", true, [](World& w, const Kind& k, int n) {
                     Sim& s = w.add(make(k, n), n);
                     uintq q[1] = { 0 };
                     api::Separate(s.sid, 1, q);
                     return 0;
                 } });
    return L;
}

// distinct single-qubit states with an entangling chain, by ids
static void prepare(Sim& s, int how, u64 keepZero = 0)
{
    const int n = s.r.n;
    for (int k = 0; k < n; ++k) {
        if ((keepZero >> k) & 1)
            continue;
        const double t = .7 + .35 * k, f = .4 - .3 * k, l = .2 + .5 * k;
        api::U(s.sid, s.ids[k], t, f, l);
        s.r.g1(k, mU(t, f, l));
    }
    if (!how)
        return;
    int last = -1;
    for (int k = 0; k < n; ++k) {
        if ((keepZero >> k) & 1)
            continue;
        if (last >= 0) {
            uintq c[1] = { s.ids[last] };
            api::MCX(s.sid, 1, c, s.ids[k]);
            s.r.ctl(1ULL << last, 1ULL << last, k, mX());
        }
        last = k;
    }
}

struct Case {
    int letter;
    VI p;
};
static std::vector<Case> casesOf(const Letters& L, int n, int maxPlacements)
{
    std::vector<Case> out;
    for (size_t i = 0; i < L.size(); ++i) {
        int c = 0;
        placements(n, L[i].k, [&](const VI& p) {
            if (c++ < maxPlacements || p.back() == 0)
                out.push_back({ (int)i, p });
        });
    }
    return out;
}
static Suite callSuite(const Kind& k, const Layout& lay, int n, bool alu, int maxPlacements, int how)
{
    auto L = std::make_shared<Letters>(alu ? aluLetters(n) : gateLetters(n));
    auto C = std::make_shared<std::vector<Case>>(casesOf(*L, n, maxPlacements));
    Suite s;
    s.name = fmt("%s/%d/%s/%s/%s", k.name, n, alu ? "arithmetic" : "gates", lay.name.c_str(), how ? "entangled" : "product");
    s.count = C->size();
    s.describe = [=](u64 i) {
        std::string d = (*L)[(*C)[i].letter].name + " on " + bitsStr((*C)[i].p);
        return d;
    };
    s.run = [=](u64 i) {
        World w;
        const Case& c = (*C)[i];
        const Letter& l = (*L)[c.letter];
        const int at = lay.make(w, k, n);
        Sim& m = w.sims[at];
        noError(m, "layout");
        u64 zero = 0;
        for (int j = 0; j < l.k; ++j)
            if ((l.zero >> j) & 1)
                zero |= 1ULL << c.p[j];
        prepare(m, how, zero);
        VQ ids;
        for (int j : c.p)
            ids.push_back(m.ids[j]);
        noError(m, "preparation");
        l.call(m.sid, ids.data());
        const int e = api::get_error(m.sid);
        transition(1);
        if (e && l.refusable && !k.alu) {
            compareAll(m, true);
            return;
        }
        MC_CHECK(!e, "get_error is %d", e);
        l.model(m.r, c.p);
        for (size_t j = 0; j < w.sims.size(); ++j)
            if ((int)j != at && w.sims[j].r.n) { // (another simulator is not affected)
                Ref z(w.sims[j].r.n);
                w.sims[j].r = z;
            }
        compareAll(m);
        visited(m.r.hash());
    };
    return s;
}

// ---------------------------------------------------------------- reading
static void meanVarOf(const Ref& r, const std::function<double(u64)>& f, double& m, double& v)
{
    m = v = 0;
    for (u64 i = 0; i < r.a.size(); ++i)
        m += std::norm(r.a[i]) * f(i);
    for (u64 i = 0; i < r.a.size(); ++i)
        v += std::norm(r.a[i]) * (f(i) - m) * (f(i) - m);
}
static void near(double got, double want, const char* what, double scale = 1)
{
    MC_CHECK(std::fabs(got - want) < 2e-3 * scale, "%s is %.5f, not %.5f", what, got, want);
}
typedef std::function<void(Sim&, const VI&, VQ&)> Reader;
struct Named {
    std::string name;
    Reader f;
    bool refusable;
};
static std::vector<Named> readers()
{
    std::vector<Named> R;
    auto add = [&](const char* nm, Reader f, bool refusable = false) { R.push_back({ nm, f, refusable }); };
    add("Prob", [](Sim& s, const VI& p, VQ& q) {
        near(api::Prob(s.sid, q[0]), s.r.prob(1ULL << p[0], 1ULL << p[0]), "Prob");
        near(api::ProbRdm(s.sid, q[0]), s.r.prob(1ULL << p[0], 1ULL << p[0]), "ProbRdm");
    });
    add("ProbAll", [](Sim& s, const VI& p, VQ& q) {
        const int k = (int)p.size();
        std::vector<float> o((1 << k) + 1, 7.5f);
        api::ProbAll(s.sid, k, q.data(), o.data());
        MC_CHECK(o[1 << k] == 7.5f, "ProbAll writes past the end");
        for (u64 v = 0; v < (1ULL << k); ++v)
            near(o[v], s.r.probIf([&](u64 b) { return valueAt(b, p, 0, k) == v; }), fmt("ProbAll[%llu]", v).c_str());
    });
    add("PermutationProb", [](Sim& s, const VI& p, VQ& q) {
        const int k = (int)p.size();
        for (u64 v = 0; v < (1ULL << k); ++v) {
            bool c[8];
            for (int i = 0; i < k; ++i)
                c[i] = (v >> i) & 1;
            const double w = s.r.probIf([&](u64 b) { return valueAt(b, p, 0, k) == v; });
            near(api::PermutationProb(s.sid, k, q.data(), c), w, "PermutationProb");
            near(api::PermutationProbRdm(s.sid, k, q.data(), c, false), w, "PermutationProbRdm");
        }
    });
    add("PermutationExpectation, Variance", [](Sim& s, const VI& p, VQ& q) {
        const int k = (int)p.size();
        double m, v;
        meanVarOf(s.r, [&](u64 b) { return (double)valueAt(b, p, 0, k); }, m, v);
        near(api::PermutationExpectation(s.sid, k, q.data()), m, "PermutationExpectation", 4);
        near(api::PermutationExpectationRdm(s.sid, k, q.data(), false), m, "PermutationExpectationRdm", 4);
        near(api::Variance(s.sid, k, q.data()), v, "Variance", 20);
        near(api::VarianceRdm(s.sid, k, q.data(), false), v, "VarianceRdm", 20);
    });
    add("FactorizedExpectation, FactorizedVariance", [](Sim& s, const VI& p, VQ& q) {
        const int k = (int)p.size();
        std::vector<uintq> w;
        std::vector<float> f;
        for (int i = 0; i < k; ++i) {
            w.push_back((i * 2 + 1) % 4), w.push_back((3 + i * 5) % 7);
            f.push_back((float)(.5 + .7 * i)), f.push_back((float)(-1.25 + .4 * i));
        }
        double m, v;
        meanVarOf(s.r, [&](u64 b) {
            double t = 0;
            for (int i = 0; i < k; ++i)
                t += (double)w[2 * i + ((b >> p[i]) & 1)];
            return t;
        }, m, v);
        near(api::FactorizedExpectation(s.sid, k, q.data(), 1, w.data()), m, "FactorizedExpectation", 10);
        near(api::FactorizedExpectationRdm(s.sid, k, q.data(), 1, w.data(), false), m, "FactorizedExpectationRdm", 10);
        near(api::FactorizedVariance(s.sid, k, q.data(), 1, w.data()), v, "FactorizedVariance", 40);
        near(api::FactorizedVarianceRdm(s.sid, k, q.data(), 1, w.data(), false), v, "FactorizedVarianceRdm", 40);
        meanVarOf(s.r, [&](u64 b) {
            double t = 0;
            for (int i = 0; i < k; ++i)
                t += f[2 * i + ((b >> p[i]) & 1)];
            return t;
        }, m, v);
        near(api::FactorizedExpectationFp(s.sid, k, q.data(), f.data()), m, "FactorizedExpectationFp", 4);
        near(api::FactorizedExpectationFpRdm(s.sid, k, q.data(), f.data(), false), m, "FactorizedExpectationFpRdm", 4);
        near(api::FactorizedVarianceFp(s.sid, k, q.data(), f.data()), v, "FactorizedVarianceFp", 10);
        near(api::FactorizedVarianceFpRdm(s.sid, k, q.data(), f.data(), false), v, "FactorizedVarianceFpRdm", 10);
    });
    auto observed = [](const Ref& r0, const VI& p, const std::vector<M2>& B, const std::vector<float>& e, double& m, double& v) {
        Ref r = r0;
        for (size_t i = 0; i < p.size(); ++i)
            r.g1(p[i], adj(B[i]));
        meanVarOf(r, [&](u64 b) {
            double t = 0;
            for (size_t i = 0; i < p.size(); ++i)
                t += e[2 * i + ((b >> p[i]) & 1)];
            return t;
        }, m, v);
    };
    add("UnitaryExpectation, MatrixExpectation", [=](Sim& s, const VI& p, VQ& q) {
        const int k = (int)p.size();
        std::vector<M2> B;
        std::vector<float> par, mt, e, pm;
        for (int i = 0; i < k; ++i) {
            const double th = .9 + .3 * i, ph = .5 - .4 * i, la = -.7 + i;
            par.push_back((float)th), par.push_back((float)ph), par.push_back((float)la);
            B.push_back(mU(th, ph, la));
            for (int j = 0; j < 4; ++j)
                mt.push_back((float)B[i].m[j].real()), mt.push_back((float)B[i].m[j].imag());
            e.push_back((float)(.25 + i)), e.push_back((float)(1.5 - i));
            pm.push_back(1), pm.push_back(-1);
        }
        double m, v;
        observed(s.r, p, B, pm, m, v);
        near(api::UnitaryExpectation(s.sid, k, q.data(), par.data()), m, "UnitaryExpectation", 4);
        near(api::UnitaryVariance(s.sid, k, q.data(), par.data()), v, "UnitaryVariance", 10);
        near(api::MatrixExpectation(s.sid, k, q.data(), mt.data()), m, "MatrixExpectation", 4);
        near(api::MatrixVariance(s.sid, k, q.data(), mt.data()), v, "MatrixVariance", 10);
        observed(s.r, p, B, e, m, v);
        near(api::UnitaryExpectationEigenVal(s.sid, k, q.data(), par.data(), e.data()), m, "UnitaryExpectationEigenVal", 4);
        near(api::UnitaryVarianceEigenVal(s.sid, k, q.data(), par.data(), e.data()), v, "UnitaryVarianceEigenVal", 10);
        near(api::MatrixExpectationEigenVal(s.sid, k, q.data(), mt.data(), e.data()), m, "MatrixExpectationEigenVal", 4);
        near(api::MatrixVarianceEigenVal(s.sid, k, q.data(), mt.data(), e.data()), v, "MatrixVarianceEigenVal", 10);
    });
    add("PauliExpectation, JointEnsembleProbability", [=](Sim& s, const VI& p, VQ& q) {
        const int k = (int)p.size();
        const int P[4] = { PauliI, PauliX, PauliY, PauliZ };
        for (int w = 1; w < (1 << (2 * k)); ++w) {
            std::vector<uintq> b;
            VI bi, pp;
            std::vector<M2> B;
            std::vector<float> e;
            for (int i = 0; i < k; ++i) {
                bi.push_back(P[(w >> (2 * i)) & 3]);
                b.push_back(bi.back());
                if (bi.back() != PauliI)
                    pp.push_back(p[i]), B.push_back(basisOf(bi.back())), e.push_back(1), e.push_back(-1);
            }
            double m, v;
            observed(s.r, pp, B, e, m, v);
            near(api::PauliExpectation(s.sid, k, q.data(), b.data()), m, "PauliExpectation", 3);
            near(api::PauliVariance(s.sid, k, q.data(), b.data()), v, "PauliVariance", 8);
        }
    });
    add("JointEnsembleProbability", [=](Sim& s, const VI& p, VQ& q) {
        const int k = (int)p.size();
        const int P[4] = { PauliI, PauliX, PauliY, PauliZ };
        for (int w = 0; w < (1 << (2 * k)); ++w) {
            VI bi;
            Ref r = s.r;
            u64 m = 0;
            for (int i = 0; i < k; ++i) {
                bi.push_back(P[(w >> (2 * i)) & 3]);
                r.g1(p[i], adj(basisOf(bi.back())));
                if (bi.back() != PauliI)
                    m |= 1ULL << p[i];
            }
            near(api::JointEnsembleProbability(s.sid, k, bi.data(), q.data()), r.probIf([&](u64 b) { return __builtin_popcountll(b & m) & 1; }), "JointEnsembleProbability", 2);
            if (api::get_error(s.sid))
                return;
        }
    }, true);
    add("TrySeparate", [](Sim& s, const VI& p, VQ& q) {
        api::TrySeparate1Qb(s.sid, q[0]);
        if (q.size() > 1)
            api::TrySeparate2Qb(s.sid, q[0], q[1]);
        api::TrySeparateTol(s.sid, q.size(), q.data(), 1e-4);
    });
    add("OutProbs, Dump", [](Sim& s, const VI& p, VQ& q) {
        const u64 N = s.r.size();
        std::vector<float> o(N + 1, 7.5f);
        api::OutProbs(s.sid, o.data());
        MC_CHECK(o[N] == 7.5f, "OutProbs writes past the end");
        const std::vector<cd> v = ket(s);
        dumpedKet.clear();
        api::Dump(s.sid, dumpAmp);
        MC_CHECK(dumpedKet.size() == N, "Dump gives %llu amplitudes, not %llu", (u64)dumpedKet.size(), N);
        for (u64 i = 0; i < N; ++i)
            near(o[i], std::norm(v[i]), "OutProbs");
        MC_CHECK(distance(dumpedKet, v) < TOL, "Dump and OutKet differ");
    });
    return R;
}
static Suite readSuite(const Kind& k, const Layout& lay, int n, int how)
{
    auto R = std::make_shared<std::vector<Named>>(readers());
    auto P = std::make_shared<std::vector<VI>>();
    for (int j = 1; j <= n; ++j)
        placements(n, j, [&](const VI& p) { P->push_back(p); });
    Suite s;
    s.name = fmt("%s/%d/reading/%s/%s", k.name, n, lay.name.c_str(), how ? "entangled" : "product");
    s.count = R->size() * P->size();
    s.describe = [=](u64 i) { return (*R)[i % R->size()].name + " of " + bitsStr((*P)[i / R->size()]); };
    s.run = [=](u64 i) {
        World w;
        Sim& m = w.sims[lay.make(w, k, n)];
        prepare(m, how);
        const VI& p = (*P)[i / R->size()];
        VQ q;
        for (int j : p)
            q.push_back(m.ids[j]);
        const Named& r = (*R)[i % R->size()];
        bool refused = false;
        try {
            r.f(m, p, q);
        } catch (const Fail&) {
            if (!(r.refusable && !k.alu && api::get_error(m.sid)))
                throw;
            refused = true;
        }
        transition(1);
        compareAll(m, refused || (r.refusable && !k.alu));
        visited(m.r.hash());
    };
    return s;
}

// ---------------------------------------------------------------- measurement
static Suite measureSuite(const Kind& k, const Layout& lay, int n, int how)
{
    struct Meas {
        std::string name;
        std::function<void(Sim&)> f;
        bool refusable = false;
    };
    auto A = std::make_shared<std::vector<Meas>>();
    for (int t = 0; t < n; ++t) {
        for (int r = 0; r < 2; ++r)
            A->push_back({ fmt("ForceM(%d,%d)", t, r), [=](Sim& s) {
                              if (s.r.prob(1ULL << t, (u64)r << t) < 1e-6)
                                  return; // (a result which cannot be is not asked for)
                              const uintq x = api::ForceM(s.sid, s.ids[t], r);
                              MC_CHECK(x == (uintq)r, "ForceM(%d) answers %llu", r, (u64)x);
                              s.r.project(1ULL << t, (u64)r << t);
                          } });
        for (int seed = 1; seed <= 3; ++seed)
            A->push_back({ fmt("M(%d) seed %d", t, seed), [=](Sim& s) {
                              api::seed(s.sid, seed);
                              const uintq x = api::M(s.sid, s.ids[t]);
                              MC_CHECK(x < 2, "M answers %llu", (u64)x);
                              s.r.project(1ULL << t, (u64)x << t);
                          } });
    }
    for (int seed = 1; seed <= 4; ++seed) {
        A->push_back({ fmt("MAll seed %d", seed), [=](Sim& s) {
                          api::seed(s.sid, seed);
                          const uintq x = api::MAll(s.sid);
                          MC_CHECK(x < s.r.size(), "MAll answers %llu", (u64)x);
                          const std::vector<cd> v = ket(s);
                          MC_CHECK(std::norm(v[x]) > .99, "after MAll = %llu the state is %s", (u64)x, show(v).c_str());
                          u64 b = 0;
                          for (int j = 0; j < n; ++j) {
                              const double p = api::Prob(s.sid, s.ids[j]);
                              MC_CHECK(p < .01 || p > .99, "after MAll, Prob(%llu) is %.4f", (u64)s.ids[j], p);
                              if (p > .5)
                                  b |= 1ULL << j;
                          }
                          MC_CHECK(s.r.prob(~0ULL & (s.r.size() - 1), b) > 1e-6, "MAll found a state of probability 0");
                          s.r.project(s.r.size() - 1, b);
                      } });
        for (int c = 1; c <= n; ++c)
            placements(n, c, [&](const VI& p) {
                if (c == n && seed > 2)
                    return;
                const int P[4] = { PauliZ, PauliX, PauliY, PauliI };
                VI b;
                for (int j = 0; j < c; ++j)
                    b.push_back(P[(j * 2 + seed + p[0]) & 3]);
                A->push_back({ fmt("Measure(%s in %s) seed %d", bitsStr(p).c_str(), bitsStr(b).c_str(), seed), [=](Sim& s) {
                                  VQ q;
                                  for (int j : p)
                                      q.push_back(s.ids[j]);
                                  VI bb = b;
                                  api::seed(s.sid, seed);
                                  const uintq x = api::Measure(s.sid, c, bb.data(), q.data());
                                  if (api::get_error(s.sid))
                                      return;
                                  MC_CHECK(x < 2, "Measure answers %llu", (u64)x);
                                  u64 m = 0;
                                  for (int j = 0; j < c; ++j) {
                                      s.r.g1(p[j], adj(basisOf(b[j])));
                                      if (b[j] != PauliI)
                                          m |= 1ULL << p[j];
                                  }
                                  MC_CHECK(s.r.probIf([=](u64 i) { return (u64)(__builtin_popcountll(i & m) & 1) == x; }) > 1e-6, "Measure answers %llu, which has probability 0", (u64)x);
                                  s.r.projectIf([=](u64 i) { return (u64)(__builtin_popcountll(i & m) & 1) == x; });
                                  for (int j = 0; j < c; ++j)
                                      s.r.g1(p[j], basisOf(b[j]));
                              }, true });
            });
    }
    placements(n, n, [&](const VI& p) {
        for (int c = 1; c <= n; ++c)
            A->push_back({ fmt("MeasureShots(%s first %d)", bitsStr(p).c_str(), c), [=](Sim& s) {
                              VQ q;
                              for (int j = 0; j < c; ++j)
                                  q.push_back(s.ids[p[j]]);
                              uintq o[9];
                              o[8] = 77;
                              api::MeasureShots(s.sid, c, q.data(), 8, o);
                              MC_CHECK(o[8] == 77, "MeasureShots writes past the end");
                              // qubits p[c..] are 1 on the inputs of this suite: a shot tells them apart
                              for (int j = 0; j < 8; ++j)
                                  MC_CHECK(o[j] < (1ULL << c) && s.r.probIf([&](u64 b) { return valueAt(b, p, 0, c) == o[j]; }) > 1e-6, "MeasureShots gives %llu, which has probability 0", (u64)o[j]);
                          } });
    });
    Suite s;
    s.name = fmt("%s/%d/measuring/%s/%s", k.name, n, lay.name.c_str(), how == 2 ? "basis" : how ? "entangled" : "product");
    s.count = A->size();
    s.describe = [=](u64 i) { return (*A)[i].name; };
    s.run = [=](u64 i) {
        World w;
        Sim& m = w.sims[lay.make(w, k, n)];
        if (how == 2) {
            api::X(m.sid, m.ids[0]);
            m.r.g1(0, mX());
            if (n > 2) {
                api::H(m.sid, m.ids[2]);
                m.r.g1(2, mH());
            }
        } else
            prepare(m, how);
        (*A)[i].f(m);
        transition(1);
        const bool mayFail = (*A)[i].refusable && !k.alu;
        compareAll(m, mayFail && api::get_error(m.sid));
        visited(m.r.hash());
    };
    return s;
}

// ---------------------------------------------------------------- histories of allocation
// Letters act on up to two simulators and are skipped (false) when the model does not allow them.
struct Step {
    std::string name;
    std::function<bool(World&, const Kind&)> f;
};
static bool zeroAndFree(const Sim& s, int k, Ref& part, Ref& rest) { return s.r.n > 1 && s.r.split(k, 1, part, rest); }
static std::vector<Step> history()
{
    std::vector<Step> H;
    auto sim = [](World& w, int i) -> Sim* {
        int c = 0;
        for (Sim& s : w.sims)
            if (s.live && s.r.n && c++ == i)
                return &s;
        return nullptr;
    };
    for (int i = 0; i < 2; ++i) {
        H.push_back({ fmt("s%d.allocate", i), [=](World& w, const Kind& k) {
                         Sim* s = sim(w, i);
                         if (!s || s->r.n >= 4)
                             return false;
                         uintq id = 20;
                         while (s->at(id) >= 0)
                             --id;
                         api::allocateQubit(s->sid, id);
                         s->r.compose(Ref(1), s->r.n);
                         s->ids.push_back(id);
                         // make it a distinguishable state
                         api::U(s->sid, id, .6, .3, .9);
                         s->r.g1(s->r.n - 1, mU(.6, .3, .9));
                         return true;
                     } });
        for (int j = 0; j < 2; ++j)
            H.push_back({ fmt("s%d.release(%s)", i, j ? "last" : "first"), [=](World& w, const Kind& k) {
                             Sim* s = sim(w, i);
                             if (!s)
                                 return false;
                             const int q = j ? s->r.n - 1 : 0;
                             if (s->r.n == 1) {
                                 if (j)
                                     return false;
                                 const bool z = s->r.prob(1, 1) < .01, g = api::release(s->sid, s->ids[0]);
                                 MC_CHECK(z == g, "release answers %d with Prob %.4f", (int)g, s->r.prob(1, 1));
                                 s->r = Ref(0);
                                 s->ids.clear();
                                 return true;
                             }
                             Ref part, rest;
                             if (!s->r.split(q, 1, part, rest))
                                 return false;
                             const bool z = part.prob(1, 1) < .01, g = api::release(s->sid, s->ids[q]);
                             MC_CHECK(z == g, "release answers %d with Prob %.4f", (int)g, part.prob(1, 1));
                             s->r = rest;
                             s->ids.erase(s->ids.begin() + q);
                             return true;
                         } });
        H.push_back({ fmt("s%d.add to the first two, backwards", i), [=](World& w, const Kind& k) {
                         Sim* s = sim(w, i);
                         if (!s || s->r.n < 2)
                             return false;
                         const VI p{ s->r.n - 1, 0 };
                         uintq q[2] = { s->ids[p[0]], s->ids[p[1]] }, a[1] = { 1 };
                         api::ADD(s->sid, 1, a, 2, q);
                         s->r.perm([=](u64 b) { return setAt(b, p, 0, 2, (valueAt(b, p, 0, 2) + 1) & 3); });
                         return true;
                     } });
        H.push_back({ fmt("s%d.entangle the last two", i), [=](World& w, const Kind& k) {
                         Sim* s = sim(w, i);
                         if (!s || s->r.n < 2)
                             return false;
                         const int c = s->r.n - 1, t = s->r.n - 2;
                         uintq q[1] = { s->ids[c] };
                         api::MCY(s->sid, 1, q, s->ids[t]);
                         s->r.ctl(1ULL << c, 1ULL << c, t, mY());
                         return true;
                     } });
        for (int two = 0; two < 2; ++two)
            for (int disp = 0; disp < 2; ++disp)
                H.push_back({ fmt("s%d.%s(%s)", i, disp ? "Dispose" : "Decompose", two ? "last, first" : "first"), [=](World& w, const Kind& k) {
                                 Sim* s = sim(w, i);
                                 if (!s || s->r.n < 2 + two)
                                     return false;
                                 // bring the wanted ones to the front of a copy of the model
                                 const int n = s->r.n;
                                 VI sel = two ? VI{ n - 1, 0 } : VI{ 0 }, order = sel;
                                 for (int q = 0; q < n; ++q)
                                     if (std::find(sel.begin(), sel.end(), q) == sel.end())
                                         order.push_back(q);
                                 Ref r(n), part, rest;
                                 r.a.assign(r.a.size(), cd(0));
                                 for (u64 b = 0; b < r.a.size(); ++b)
                                     r.a[b] = s->r.a[setAt(0, order, 0, n, b)];
                                 if (!r.split(0, (int)sel.size(), part, rest))
                                     return false;
                                 VQ q, left;
                                 for (int j : sel)
                                     q.push_back(s->ids[j]);
                                 for (size_t j = sel.size(); j < order.size(); ++j)
                                     left.push_back(s->ids[order[j]]);
                                 const uintq sid = s->sid;
                                 s->r = rest;
                                 s->ids = left;
                                 if (disp) {
                                     api::Dispose(sid, q.size(), q.data());
                                 } else {
                                     const uintq ns = api::Decompose(sid, q.size(), q.data());
                                     Sim& o = w.add(ns, (int)sel.size()); // (ids 0, 1, ... in the order listed)
                                     o.r = part;
                                 }
                                 return true;
                             } });
        H.push_back({ fmt("s%d.clone", i), [=](World& w, const Kind& k) {
                         Sim* s = sim(w, i);
                         if (!s || w.sims.size() >= 3)
                             return false;
                         Sim c = *s;
                         c.sid = api::init_clone(s->sid);
                         w.sims.push_back(c);
                         return true;
                     } });
        H.push_back({ fmt("s%d.destroy", i), [=](World& w, const Kind& k) {
                         Sim* s = sim(w, i);
                         if (!s)
                             return false;
                         api::destroy(s->sid);
                         s->live = false;
                         s->r = Ref(0);
                         s->ids.clear();
                         return true;
                     } });
        H.push_back({ fmt("s%d.compose with the other", i), [=](World& w, const Kind& k) {
                         Sim *s = sim(w, i), *o = sim(w, 1 - i);
                         if (!s || !o || s->r.n + o->r.n > 5)
                             return false;
                         VQ ids;
                         for (int j = 0; j < o->r.n; ++j) {
                             uintq id = 30 + 10 * i;
                             while (s->at(id) >= 0 || std::find(ids.begin(), ids.end(), id) != ids.end())
                                 --id;
                             ids.push_back(id);
                         }
                         // the ids are given by position: make the order of the positions that of the model
                         if (o->r.n > 1) {
                             VQ fwd = o->ids;
                             uintq z[1] = { 0 };
                             api::ADD(o->sid, 1, z, fwd.size(), fwd.data());
                         }
                         api::Compose(s->sid, o->sid, ids.data());
                         s->r.compose(o->r, s->r.n);
                         s->ids.insert(s->ids.end(), ids.begin(), ids.end());
                         return true;
                     } });
    }
    H.push_back({ "another simulator", [](World& w, const Kind& k) {
                     if (w.sims.size() >= 3)
                         return false;
                     Sim& s = w.add(make(k, 2), 2);
                     api::U(s.sid, 0, 1.1, -.4, .8);
                     s.r.g1(0, mU(1.1, -.4, .8));
                     api::U(s.sid, 1, 1.7, .6, -.2);
                     s.r.g1(1, mU(1.7, .6, -.2));
                     return true;
                 } });
    return H;
}
static Suite historySuite(const Kind& k, int depth)
{
    auto H = std::make_shared<std::vector<Step>>(history());
    Suite s;
    u64 N = 1;
    for (int i = 0; i < depth; ++i)
        N *= H->size();
    s.name = fmt("%s/histories of %d", k.name, depth);
    s.count = N;
    s.describe = [=](u64 i) {
        std::string d;
        for (int j = 0; j < depth; ++j, i /= H->size())
            d += (j ? "; " : "") + (*H)[i % H->size()].name;
        return d;
    };
    s.run = [=](u64 i) {
        World w;
        Sim& a = w.add(make(k, 3), 3);
        for (int q = 0; q < 3; ++q) {
            const double t = q == 1 ? 0 : .8 + .3 * q;
            api::U(a.sid, q, t, .4 - .3 * q, .2 + .5 * q);
            a.r.g1(q, mU(t, .4 - .3 * q, .2 + .5 * q));
        }
        for (int j = 0; j < depth; ++j, i /= H->size()) {
            if (!(*H)[i % H->size()].f(w, k))
                return; // (not a history)
            transition(1);
            for (Sim& t : w.sims)
                if (t.live)
                    noError(t, "history");
        }
        for (Sim& t : w.sims)
            if (t.live) {
                compareAll(t);
                visited(t.r.hash());
            }
    };
    return s;
}

// ---------------------------------------------------------------- ids that name nothing
static Suite errorSuite(const Kind& k, const char* what, const Letters& all, int n)
{
    auto L = std::make_shared<Letters>(all);
    // every call, with (a) simulators that do not exist, (b) each listed qubit replaced by an unknown id
    auto C = std::make_shared<std::vector<std::pair<int, int>>>();
    for (size_t i = 0; i < L->size(); ++i)
        for (int j = -3; j < (*L)[i].k; ++j) {
            // (an identity in a Pauli string says nothing of its qubit)
            const std::string& nm = (*L)[i].name;
            if (j >= 0 && nm.find("Exp") != std::string::npos && nm.find('I') != std::string::npos)
                continue;
            C->push_back({ (int)i, j });
        }
    Suite s;
    s.name = fmt("%s/%d/unknown ids/%s", k.name, n, what);
    s.count = C->size();
    s.describe = [=](u64 i) {
        const int j = (*C)[i].second;
        return (*L)[(*C)[i].first].name + (j == -3 ? " of a simulator one past the last" : j == -2 ? " of simulator 10^9" : j == -1 ? " of a destroyed simulator" : fmt(" with an unknown id for qubit %d", j));
    };
    s.run = [=](u64 i) {
        World w;
        const Letter& l = (*L)[(*C)[i].first];
        const int j = (*C)[i].second;
        Sim& m = w.add(make(k, n), n);
        prepare(m, 1);
        VQ ids;
        for (int t = 0; t < l.k; ++t)
            ids.push_back(m.ids[t]);
        if (j < 0) {
            // the first id that was never handed out: ids are handed out in order, and used again
            uintq top = 0;
            VQ extra;
            for (int t = 0; t < 2; ++t) {
                extra.push_back(make(k, 1));
                top = std::max(top, extra.back());
            }
            top = std::max(top, m.sid);
            uintq bad = j == -3 ? top + 1 : j == -2 ? 1000000000ULL : extra[0];
            if (j == -3)
                for (;;) { // (an earlier history may have used more at once)
                    api::num_qubits(bad);
                    if (api::get_error(m.sid))
                        break;
                    ++bad;
                }
            if (j == -1)
                api::destroy(bad);
            l.call(bad, ids.data());
            if (j == -1)
                api::get_error(m.sid); // (either answer: the id was handed out once)
            else
                MC_CHECK(api::get_error(m.sid) == 2, "a call on a simulator that does not exist is not reported");
            for (uintq e : extra)
                if (e != bad)
                    api::destroy(e);
        } else {
            ids[j] = 65536 + 2; // (2 is known, this is not)
            l.call(m.sid, ids.data());
            MC_CHECK(api::get_error(m.sid), "a call with an unknown qubit id is not reported");
        }
        transition(1);
        compareAll(m, j >= 0);
        visited(m.r.hash());
    };
    return s;
}
static Letters otherCalls(int n)
{
    Letters L;
    auto add = [&](const char* nm, int k, std::function<void(uintq, uintq*)> f) { L.push_back({ nm, k, f, [](Ref&, const VI&) {} }); };
    add("Prob", 1, [](uintq s, uintq* q) { api::Prob(s, q[0]); });
    add("ProbRdm", 1, [](uintq s, uintq* q) { api::ProbRdm(s, q[0]); });
    add("M", 1, [](uintq s, uintq* q) { api::M(s, q[0]); });
    add("ForceM", 1, [](uintq s, uintq* q) { api::ForceM(s, q[0], true); });
    add("release", 1, [](uintq s, uintq* q) { api::release(s, q[0]); });
    add("TrySeparate1Qb", 1, [](uintq s, uintq* q) { api::TrySeparate1Qb(s, q[0]); });
    add("TrySeparate2Qb", 2, [](uintq s, uintq* q) { api::TrySeparate2Qb(s, q[0], q[1]); });
    add("TrySeparateTol", 2, [](uintq s, uintq* q) { api::TrySeparateTol(s, 2, q, 1e-4); });
    add("Separate", 2, [](uintq s, uintq* q) { api::Separate(s, 2, q); });
    add("Dispose", 2, [](uintq s, uintq* q) { api::Dispose(s, 2, q); });
    add("init_qneuron", 2, [](uintq s, uintq* q) { api::init_qneuron(s, 1, q, q[1], 0, 1, 1e-6); });
    add("ProbAll", 2, [](uintq s, uintq* q) {
        float o[4];
        api::ProbAll(s, 2, q, o);
    });
    add("PermutationProb", 2, [](uintq s, uintq* q) {
        bool b[2] = { true, false };
        api::PermutationProb(s, 2, q, b);
    });
    add("PermutationExpectation", 2, [](uintq s, uintq* q) { api::PermutationExpectation(s, 2, q); });
    add("VarianceRdm", 2, [](uintq s, uintq* q) { api::VarianceRdm(s, 2, q, false); });
    add("FactorizedExpectation", 2, [](uintq s, uintq* q) {
        uintq c[4] = { 1, 2, 3, 4 };
        api::FactorizedExpectation(s, 2, q, 1, c);
    });
    add("UnitaryExpectation", 2, [](uintq s, uintq* q) {
        float b[6] = { 0 };
        api::UnitaryExpectation(s, 2, q, b);
    });
    add("MatrixVariance", 2, [](uintq s, uintq* q) {
        float b[16] = { 1, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0 };
        api::MatrixVariance(s, 2, q, b);
    });
    add("PauliExpectation", 2, [](uintq s, uintq* q) {
        uintq b[2] = { PauliX, PauliZ };
        api::PauliExpectation(s, 2, q, b);
    });
    add("JointEnsembleProbability", 2, [](uintq s, uintq* q) {
        int b[2] = { PauliX, PauliY };
        api::JointEnsembleProbability(s, 2, b, q);
    });
    add("Measure", 2, [](uintq s, uintq* q) {
        int b[2] = { PauliX, PauliY };
        api::Measure(s, 2, b, q);
    });
    add("MeasureShots", 2, [](uintq s, uintq* q) {
        uintq o[4];
        api::MeasureShots(s, 2, q, 4, o);
    });
    return L;
}
static Letters wholeCalls()
{
    Letters L;
    auto add = [&](const char* nm, std::function<void(uintq)> f) { L.push_back({ nm, 0, [=](uintq s, uintq*) { f(s); }, [](Ref&, const VI&) {} }); };
    add("num_qubits", [](uintq s) { api::num_qubits(s); });
    add("MAll", [](uintq s) { api::MAll(s); });
    add("ResetAll", [](uintq s) { api::ResetAll(s); });
    add("DumpIds", [](uintq s) { api::DumpIds(s, dumpId); });
    add("Dump", [](uintq s) { api::Dump(s, dumpAmp); });
    add("seed", [](uintq s) { api::seed(s, 1); });
    add("Normalize", [](uintq s) { api::Normalize(s); });
    add("GetUnitaryFidelity", [](uintq s) { api::GetUnitaryFidelity(s); });
    add("SetSdrp", [](uintq s) { api::SetSdrp(s, 0); });
    add("set_concurrency", [](uintq s) { api::set_concurrency(s, 2); });
    return L;
}

// ---------------------------------------------------------------- circuits
static Suite circuitSuite(const Kind& k, int n, int len)
{
    // gates with up to three controls, in every order
    struct CG {
        int nc;
        VI q; // controls..., target
        u64 perm;
        int g;
    };
    auto A = std::make_shared<std::vector<CG>>();
    for (int c = 0; c < n; ++c)
        placements(n, c + 1, [&](const VI& p) {
            for (u64 perm = 0; perm < (1ULL << c); ++perm) {
                if (len > 1 && c > 1 && perm != 1 && perm + 1 != (1ULL << c))
                    continue;
                if (len > 1 && c == 2 && p[0] > p[1] && p[2] != 1)
                    continue;
                A->push_back({ c, p, perm, c == 0 ? 0 : (int)(p[0] + c + perm) % 3 });
            }
        });
    auto mat = [](int g) { return g == 0 ? mU(.9, .5, -.4) : g == 1 ? scale(mP(.8), std::polar(1.0, .3)) : M2{ { 0, std::polar(1.0, .4), std::polar(1.0, -.2), 0 } }; };
    auto apply = [=](Ref& r, const CG& g, bool inv) {
        u64 m = 0, v = 0;
        for (int i = 0; i < g.nc; ++i)
            m |= 1ULL << g.q[i], v |= ((g.perm >> i) & 1) << g.q[i];
        r.ctl(m, v, g.q[g.nc], inv ? adj(mat(g.g)) : mat(g.g));
    };
    const int FORMS = 5;
    const char* form[FORMS] = { "run", "clone", "inverse", "swapped", "through a file" };
    u64 N = FORMS;
    for (int i = 0; i < len; ++i)
        N *= A->size();
    Suite s;
    s.name = fmt("%s/%d/circuits of %d", k.name, n, len);
    s.count = N;
    s.describe = [=](u64 i) {
        std::string d = form[i % FORMS];
        i /= FORMS;
        for (int j = 0; j < len; ++j, i /= A->size()) {
            const CG& g = (*A)[i % A->size()];
            d += fmt("; gate %d on ", g.g) + bitsStr(g.q) + fmt(" perm %llu", g.perm);
        }
        return d;
    };
    s.run = [=](u64 i) {
        const int f = (int)(i % FORMS);
        i /= FORMS;
        World w;
        Sim& m = w.add(make(k, n), n);
        prepare(m, 0);
        uintq c = api::init_qcircuit(true, false);
        w.circuits.push_back(c);
        std::vector<CG> gs;
        for (int j = 0; j < len; ++j, i /= A->size()) {
            const CG& g = (*A)[i % A->size()];
            gs.push_back(g);
            double d[8];
            darr(mat(g.g), d);
            VQ q(g.q.begin(), g.q.end());
            if (g.nc)
                api::qcircuit_append_mc(c, d, g.nc, q.data(), q.back(), g.perm);
            else
                api::qcircuit_append_1qb(c, d, q[0]);
            transition(1);
        }
        uintq run = c;
        if (f == 1)
            w.circuits.push_back(run = api::init_qcircuit_clone(c));
        if (f == 2)
            w.circuits.push_back(run = api::qcircuit_inverse(c));
        if (f == 3) {
            api::qcircuit_swap(c, 0, n - 1);
        }
        char path[64] = "";
        if (f == 4) {
            snprintf(path, sizeof path, "/dev/shm/mc-c13-%d", (int)getpid());
            api::qcircuit_out_to_file(c, path);
            w.circuits.push_back(run = api::init_qcircuit(true, false));
            api::qcircuit_in_from_file(run, path);
            unlink(path);
            const size_t sz = api::qcircuit_out_to_string_length(c);
            std::string str(sz + 1, '#');
            api::qcircuit_out_to_string(c, &str[0]);
            MC_CHECK(str[sz - 1] == 0 && str[sz] == '#', "qcircuit_out_to_string does not fit the length it announced");
        }
        api::qcircuit_run(run, m.sid);
        if (f == 2)
            std::reverse(gs.begin(), gs.end());
        for (const CG& g : gs)
            apply(m.r, g, f == 2);
        if (f == 3)
            m.r.perm([=](u64 b) -> u64 {
                const u64 lo = b & 1, hi = (b >> (n - 1)) & 1;
                return (b & ~1ULL & ~(1ULL << (n - 1))) | hi | (lo << (n - 1));
            });
        compareAll(m);
        visited(m.r.hash());
    };
    return s;
}

// ---------------------------------------------------------------- neurons
static Suite neuronSuite(const Kind& k, const Layout& lay, int n)
{
    std::vector<std::vector<VI>> P(1);
    auto Q = std::make_shared<std::vector<VI>>();
    for (int c = 1; c < n; ++c)
        placements(n, c + 1, [&](const VI& p) { Q->push_back(p); });
    Suite s;
    s.name = fmt("%s/%d/neurons/%s", k.name, n, lay.name.c_str());
    s.count = Q->size() * 2 * 2;
    s.describe = [=](u64 i) { return fmt("%s%s on ", i & 1 ? "unpredict" : "predict and unpredict", i & 2 ? " by a clone" : "") + bitsStr((*Q)[i / 4]); };
    s.run = [=](u64 i) {
        World w;
        Sim& m = w.sims[lay.make(w, k, n)];
        const VI& p = (*Q)[i / 4];
        const int c = (int)p.size() - 1;
        // (the output qubit is |0>)
        prepare(m, 1, 1ULL << p[c]);
        VQ q;
        for (int j : p)
            q.push_back(m.ids[j]);
        uintq nid = api::init_qneuron(m.sid, c, q.data(), q[c], 0, 1, 1e-6);
        w.neurons.push_back(nid);
        std::vector<float> ang, back(1 << c);
        for (int j = 0; j < (1 << c); ++j)
            ang.push_back((float)(.3 + .25 * j));
        api::set_qneuron_angles(nid, ang.data());
        if (i & 2) {
            const uintq o = nid;
            nid = api::clone_qneuron(o);
            w.neurons.push_back(nid);
            std::vector<float> other(1 << c, .1f);
            api::set_qneuron_angles(o, other.data());
        }
        api::get_qneuron_angles(nid, back.data());
        for (int j = 0; j < (1 << c); ++j)
            near(back[j], ang[j], "get_qneuron_angles");
        auto model = [&](Ref& r, bool inv) {
            for (int j = 0; j < (1 << c); ++j)
                r.ctl(maskAt(p, 0, c), setAt(0, p, 0, c, j), p[c], rot(PauliY, inv ? -ang[j] : ang[j]));
        };
        auto flip = [&](Ref& r) { r.g1(p[c], rot(PauliY, PI / 2)); };
        transition(1);
        if (i & 1) {
            api::qneuron_unpredict(nid, true);
            model(m.r, true);
        } else {
            flip(m.r);
            model(m.r, false);
            const double pr = api::qneuron_predict(nid, true, true);
            near(pr, m.r.prob(1ULL << p[c], 1ULL << p[c]), "qneuron_predict");
            api::qneuron_unpredict(nid, true);
            model(m.r, true);
        }
        compareAll(m);
        visited(m.r.hash());
    };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C13", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "one caller at a time", "states are compared up to a global phase",
        "Dump, OutKet, OutProbs, MAll and the ids given to Compose go by position, not by id" };
    const auto& K = kinds();
    const std::vector<Layout> lays = layouts();
    for (size_t ki = 0; ki < K.size(); ++ki) {
        const Kind& k = K[ki];
        for (size_t li = 0; li < lays.size(); ++li) {
            const Layout& l = lays[li];
            if (l.grows && !k.grows)
                continue;
            const bool main = ki < 2 || k.how == 0 && !k.bdt;
            if (!T && !main && li > 2)
                continue;
            R.explore(callSuite(k, l, 3, false, T || li <= 2 || ki < 2 ? 99 : 2, 1));
            if (T || ki < 2 || li < 2)
                R.explore(callSuite(k, l, 3, false, 99, 0));
            R.explore(callSuite(k, l, 3, true, 99, 1));
            R.explore(callSuite(k, l, 5, true, T ? 120 : ki == 0 && li < 3 ? 24 : 3, 1));
            R.explore(readSuite(k, l, 3, 1));
            R.explore(readSuite(k, l, 3, 0));
            R.explore(measureSuite(k, l, 3, 1));
            R.explore(measureSuite(k, l, 3, 2));
            if (T || li < 2)
                R.explore(neuronSuite(k, l, 3));
        }
        if (k.grows)
            R.explore(historySuite(k, ki ? (T ? 4 : 3) : T ? 5 : 4));
        R.explore(errorSuite(k, "gates", gateLetters(3), 3));
        R.explore(errorSuite(k, "arithmetic", aluLetters(3), 3));
        R.explore(errorSuite(k, "others", otherCalls(3), 3));
        R.explore(errorSuite(k, "registers", wholeCalls(), 3));
        R.explore(circuitSuite(k, 4, 1));
        if (T || ki < 2)
            R.explore(circuitSuite(k, 3, 2));
    }
    return R.finish();
}
