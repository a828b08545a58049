// The gate API of QInterface, call by call, next to its textbook meaning.
#pragma once
#include "sim.hpp"

namespace mc {

struct GateOpts {
    bool clifford = false; // only Clifford gates
    bool multi = true; // three and more qubit gates
    bool full = true; // every call (false: one representative per kind)
};

inline void apply4(Ref& r, int q1, int q2, const std::vector<cd>& m, u64 cm = 0, u64 cv = 0)
{
    cd a[16];
    for (int i = 0; i < 16; ++i)
        a[i] = m[i];
    r.g2(q1, q2, a, cm, cv);
}
inline std::vector<cd> mSwapLike(cd d, cd o)
{ // |01>,|10> block [[d,o],[o,d]]
    return { 1, 0, 0, 0, 0, d, o, 0, 0, o, d, 0, 0, 0, 0, 1 };
}

inline void add1(Alphabet& A, const std::string& name, int n, const M2& g,
    const std::function<void(QInterface&, bitLenInt)>& f)
{
    for (int t = 0; t < n; ++t)
        A.push_back({ name + "(" + std::to_string(t) + ")", [=](Ctx& c) {
                         f(*c.q, t);
                         c.r.g1(t, g);
                     } });
}
inline void add2c(Alphabet& A, const std::string& name, int n, bool anti, const M2& g,
    const std::function<void(QInterface&, bitLenInt, bitLenInt)>& f)
{
    placements(n, 2, [&](const std::vector<int>& p) {
        int c0 = p[0], t = p[1];
        A.push_back({ name + fmt("(%d,%d)", c0, t), [=](Ctx& c) {
                         f(*c.q, c0, t);
                         c.r.ctl(1ULL << c0, anti ? 0 : 1ULL << c0, t, g);
                     } });
    });
}
inline void add3c(Alphabet& A, const std::string& name, int n, bool anti, const M2& g,
    const std::function<void(QInterface&, bitLenInt, bitLenInt, bitLenInt)>& f)
{
    placements(n, 3, [&](const std::vector<int>& p) {
        int c0 = p[0], c1 = p[1], t = p[2];
        u64 m = (1ULL << c0) | (1ULL << c1);
        A.push_back({ name + fmt("(%d,%d,%d)", c0, c1, t), [=](Ctx& c) {
                         f(*c.q, c0, c1, t);
                         c.r.ctl(m, anti ? 0 : m, t, g);
                     } });
    });
}
inline std::string bitsStr(const std::vector<int>& b)
{
    std::string s = "{";
    for (size_t i = 0; i < b.size(); ++i)
        s += (i ? "," : "") + std::to_string(b[i]);
    return s + "}";
}
// generic (multi) controlled call with k controls, every placement
inline void addMC(Alphabet& A, const std::string& name, int n, int k, int polarity /*1 on,0 anti,-1 uniform perm*/,
    const M2& g, const std::function<void(QInterface&, const Bits&, bitLenInt, u64)>& f)
{
    placements(n, k + 1, [&](const std::vector<int>& p) {
        std::vector<int> cs(p.begin(), p.begin() + k);
        int t = p[k];
        Bits b(cs.begin(), cs.end());
        u64 m = maskOf(b);
        auto val = [&](u64 perm) {
            u64 v = 0;
            for (int i = 0; i < k; ++i)
                if ((perm >> i) & 1)
                    v |= 1ULL << cs[i];
            return v;
        };
        if (polarity >= 0) {
            A.push_back({ name + "(" + bitsStr(cs) + "," + std::to_string(t) + ")", [=](Ctx& c) {
                             f(*c.q, b, t, 0);
                             c.r.ctl(m, polarity ? m : 0, t, g);
                         } });
        } else {
            for (u64 perm = 0; perm < (1ULL << k); ++perm) {
                u64 v = val(perm);
                A.push_back(
                    { name + "(" + bitsStr(cs) + "," + std::to_string(t) + fmt(",perm=%llu)", (unsigned long long)perm),
                        [=](Ctx& c) {
                            f(*c.q, b, t, perm);
                            c.r.ctl(m, v, t, g);
                        } });
            }
        }
    });
}
inline void addSwapLike(Alphabet& A, const std::string& name, int n, const std::vector<cd>& m,
    const std::function<void(QInterface&, bitLenInt, bitLenInt)>& f)
{
    placements(n, 2, [&](const std::vector<int>& p) {
        int x = p[0], y = p[1];
        A.push_back({ name + fmt("(%d,%d)", x, y), [=](Ctx& c) {
                         f(*c.q, x, y);
                         apply4(c.r, x, y, m);
                     } });
    });
}
inline void addCSwapLike(Alphabet& A, const std::string& name, int n, int k, bool anti, const std::vector<cd>& m,
    const std::function<void(QInterface&, const Bits&, bitLenInt, bitLenInt)>& f)
{
    placements(n, k + 2, [&](const std::vector<int>& p) {
        std::vector<int> cs(p.begin(), p.begin() + k);
        int x = p[k], y = p[k + 1];
        Bits b(cs.begin(), cs.end());
        u64 cm = maskOf(b);
        A.push_back({ name + "(" + bitsStr(cs) + fmt(",%d,%d)", x, y), [=](Ctx& c) {
                         f(*c.q, b, x, y);
                         apply4(c.r, x, y, m, cm, anti ? 0 : cm);
                     } });
    });
}

// exp(-i t H) for a 2x2 Hermitian H
inline M2 mExpH(const M2& h, double t)
{
    // H = a I + v.sigma
    double a = (h.m[0].real() + h.m[3].real()) / 2, vz = (h.m[0].real() - h.m[3].real()) / 2, vx = h.m[2].real(),
           vy = h.m[2].imag();
    double v = std::sqrt(vx * vx + vy * vy + vz * vz);
    cd ph = std::polar(1.0, -a * t);
    double c = std::cos(v * t), s = v > 0 ? std::sin(v * t) / v : t;
    M2 r;
    r.m[0] = ph * (c - cd(0, 1) * s * vz);
    r.m[3] = ph * (c + cd(0, 1) * s * vz);
    r.m[1] = ph * (cd(0, -1) * s * cd(vx, -vy));
    r.m[2] = ph * (cd(0, -1) * s * cd(vx, vy));
    return r;
}
inline BitOp bitOp(const std::vector<M2>& g)
{
    BitOp b(new complex[4 * g.size()], std::default_delete<complex[]>());
    for (size_t k = 0; k < g.size(); ++k)
        for (int i = 0; i < 4; ++i)
            b.get()[4 * k + i] = cc(g[k].m[i]);
    return b;
}

#define G1(call) [=](QInterface & q, bitLenInt t) { (void)t; q.call; }
#define G2(call) [=](QInterface & q, bitLenInt c, bitLenInt t) { q.call; }
#define G3(call) [=](QInterface & q, bitLenInt c, bitLenInt d, bitLenInt t) { q.call; }
#define GM(call) [=](QInterface & q, const Bits& c, bitLenInt t, u64 perm) { (void)perm; q.call; }
#define GC(call) [=](QInterface & q, const Bits& c, bitLenInt x, bitLenInt y) { q.call; }

inline Alphabet gateAlphabet(int n, const GateOpts& o)
{
    Alphabet A;
    const M2 H = mH(), X = mX(), Y = mY(), Z = mZ(), S = mP(PI / 2), IS = mP(-PI / 2), T = mP(PI / 4), IT = mP(-PI / 4);
    const double s = std::sqrt(0.5);
    const bool nc = !o.clifford;
    // -- single qubit, Clifford
    add1(A, "H", n, H, G1(H(t)));
    add1(A, "X", n, X, G1(X(t)));
    add1(A, "Y", n, Y, G1(Y(t)));
    add1(A, "Z", n, Z, G1(Z(t)));
    add1(A, "S", n, S, G1(S(t)));
    add1(A, "IS", n, IS, G1(IS(t)));
    add1(A, "SH", n, mul(S, H), G1(SH(t)));
    add1(A, "HIS", n, mul(H, IS), G1(HIS(t)));
    add1(A, "SqrtX", n, mSqrt(X), G1(SqrtX(t)));
    add1(A, "ISqrtX", n, adj(mSqrt(X)), G1(ISqrtX(t)));
    add1(A, "SqrtY", n, mSqrt(Y), G1(SqrtY(t)));
    add1(A, "ISqrtY", n, adj(mSqrt(Y)), G1(ISqrtY(t)));
    for (int k : { 1, 2 }) {
        add1(A, fmt("PhaseRootN[%d]", k), n, mP(-2 * PI / (1 << k)), G1(PhaseRootN(k, t)));
    }
    {
        const M2 p1 = { { cd(0, 1), 0, 0, 1 } }, p2 = { { 1, 0, 0, cd(0, -1) } };
        add1(A, "Phase[i,1]", n, p1, G1(Phase(I_CMPLX, ONE_CMPLX, t)));
        add1(A, "Phase[1,-i]", n, p2, G1(Phase(ONE_CMPLX, -I_CMPLX, t)));
        const M2 i1 = { { 0, cd(0, 1), 1, 0 } }, i2 = { { 0, 1, -1, 0 } };
        add1(A, "Invert[i,1]", n, i1, G1(Invert(I_CMPLX, ONE_CMPLX, t)));
        add1(A, "Invert[1,-1]", n, i2, G1(Invert(ONE_CMPLX, -ONE_CMPLX, t)));
        const M2 m1 = mul(H, S), m2 = mul(mul(S, H), S), m3 = mul(H, Z);
        const CM c1(m1), c2(m2), c3(m3);
        add1(A, "Mtrx[HS]", n, m1, [=](QInterface& q, bitLenInt t) { q.Mtrx(c1.m, t); });
        add1(A, "Mtrx[SHS]", n, m2, [=](QInterface& q, bitLenInt t) { q.Mtrx(c2.m, t); });
        add1(A, "Mtrx[HZ]", n, m3, [=](QInterface& q, bitLenInt t) { q.Mtrx(c3.m, t); });
    }
    // -- two qubit, Clifford
    add2c(A, "CNOT", n, false, X, G2(CNOT(c, t)));
    add2c(A, "CY", n, false, Y, G2(CY(c, t)));
    add2c(A, "CZ", n, false, Z, G2(CZ(c, t)));
    add2c(A, "AntiCNOT", n, true, X, G2(AntiCNOT(c, t)));
    add2c(A, "AntiCY", n, true, Y, G2(AntiCY(c, t)));
    add2c(A, "AntiCZ", n, true, Z, G2(AntiCZ(c, t)));
    {
        const M2 zi = { { -1, 0, 0, 1 } }, xi = { { 0, 1, -1, 0 } };
        addMC(A, "MCPhase[-1,1]", n, 1, 1, zi, GM(MCPhase(c, -ONE_CMPLX, ONE_CMPLX, t)));
        addMC(A, "MACPhase[-1,1]", n, 1, 0, zi, GM(MACPhase(c, -ONE_CMPLX, ONE_CMPLX, t)));
        addMC(A, "MCInvert[1,-1]", n, 1, 1, xi, GM(MCInvert(c, ONE_CMPLX, -ONE_CMPLX, t)));
        addMC(A, "MACInvert[1,-1]", n, 1, 0, xi, GM(MACInvert(c, ONE_CMPLX, -ONE_CMPLX, t)));
        const CM cx(X);
        addMC(A, "MCMtrx[X]", n, 1, 1, X, GM(MCMtrx(c, cx.m, t)));
        addMC(A, "MACMtrx[X]", n, 1, 0, X, GM(MACMtrx(c, cx.m, t)));
        addMC(A, "UCPhase[1,-1]", n, 1, -1, Z, GM(UCPhase(c, ONE_CMPLX, -ONE_CMPLX, t, perm)));
        addMC(A, "UCInvert[1,1]", n, 1, -1, X, GM(UCInvert(c, ONE_CMPLX, ONE_CMPLX, t, perm)));
    }
    addSwapLike(A, "Swap", n, mSwapLike(0, 1), [](QInterface& q, bitLenInt a, bitLenInt b) { q.Swap(a, b); });
    addSwapLike(A, "ISwap", n, mSwapLike(0, cd(0, 1)), [](QInterface& q, bitLenInt a, bitLenInt b) { q.ISwap(a, b); });
    addSwapLike(A, "IISwap", n, mSwapLike(0, cd(0, -1)), [](QInterface& q, bitLenInt a, bitLenInt b) { q.IISwap(a, b); });
    // -- masks
    for (u64 m = 0; m < (1ULL << n); ++m) {
        // the empty mask is left to the argument-checking property
        if (!m)
            continue;
        A.push_back({ fmt("XMask(%llu)", (unsigned long long)m), [=](Ctx& c) {
                         c.q->XMask(m);
                         c.r.perm([=](u64 i) { return i ^ m; });
                     } });
        A.push_back({ fmt("ZMask(%llu)", (unsigned long long)m), [=](Ctx& c) {
                         c.q->ZMask(m);
                         c.r.diag([=](u64 i) { return __builtin_popcountll(i & m) & 1 ? -1.0 : 1.0; });
                     } });
        A.push_back({ fmt("YMask(%llu)", (unsigned long long)m), [=](Ctx& c) {
                         c.q->YMask(m);
                         for (int t = 0; t < c.r.n; ++t)
                             if ((m >> t) & 1)
                                 c.r.g1(t, mY());
                     } });
    }
    if (o.multi)
        for (int a0 = 0; a0 < n; ++a0)
            for (int b0 = a0 + 1; b0 <= n; ++b0)
                A.push_back({ fmt("Reverse(%d,%d)", a0, b0), [=](Ctx& c) {
                                 c.q->Reverse(a0, b0);
                                 c.r.perm([=](u64 i) {
                                     u64 o = i;
                                     for (int k = a0; k < b0; ++k) {
                                         u64 bit = (i >> k) & 1;
                                         int d = a0 + b0 - 1 - k;
                                         o = (o & ~(1ULL << d)) | (bit << d);
                                     }
                                     return o;
                                 });
                             } });
    A.push_back({ "PhaseFlip()", [=](Ctx& c) { c.q->PhaseFlip(); } });
    if (!nc)
        return A;

    // ================= non-Clifford
    add1(A, "T", n, T, G1(T(t)));
    add1(A, "IT", n, IT, G1(IT(t)));
    {
        cd m00((1 + std::sqrt(2.0)) / (2 * std::sqrt(2.0)), (-1 + std::sqrt(2.0)) / (2 * std::sqrt(2.0)));
        (void)m00;
        add1(A, "SqrtH", n, mSqrt(H), G1(SqrtH(t)));
        // W = (X + Y)/sqrt2 ; Arute et al. give sqrt(W) = 1/sqrt2 [[1, -sqrt(i)],[sqrt(-i), 1]]
        M2 sw = { { s, -s * std::polar(1.0, PI / 4), s * std::polar(1.0, -PI / 4), s } };
        add1(A, "SqrtW", n, sw, G1(SqrtW(t)));
        add1(A, "ISqrtW", n, adj(sw), G1(ISqrtW(t)));
    }
    for (int k : { 3, 4 }) {
        add1(A, fmt("PhaseRootN[%d]", k), n, mP(-2 * PI / (1 << k)), G1(PhaseRootN(k, t)));
    }
    for (double a : { 0.7, -2.1 }) {
        add1(A, fmt("RX[%.1f]", a), n, mRX(a), G1(RX(a, t)));
        add1(A, fmt("RY[%.1f]", a), n, mRY(a), G1(RY(a, t)));
        add1(A, fmt("RZ[%.1f]", a), n, mRZ(a), G1(RZ(a, t)));
        add1(A, fmt("RT[%.1f]", a), n, mP(a / 2), G1(RT(a, t)));
    }
    add1(A, "U[.7,.4,1.1]", n, mU(.7, .4, 1.1), G1(U(t, .7, .4, 1.1)));
    add1(A, "U[2.3,-1.2,.5]", n, mU(2.3, -1.2, .5), G1(U(t, 2.3, -1.2, .5)));
    add1(A, "U2[.4,1.1]", n, mU(PI / 2, .4, 1.1), G1(U2(t, .4, 1.1)));
    add1(A, "IU2[.4,1.1]", n, adj(mU(PI / 2, .4, 1.1)), G1(IU2(t, .4, 1.1)));
    add1(A, "AI[.6,1.3]", n, mAI(.6, 1.3), G1(AI(t, .6, 1.3)));
    add1(A, "IAI[.6,1.3]", n, adj(mAI(.6, 1.3)), G1(IAI(t, .6, 1.3)));
    const M2 g = scale(mU(1.1, .3, -.8), std::polar(1.0, .35)), gp = { { std::polar(1.0, .4), 0, 0, std::polar(1.0, -1.3) } },
             gi = { { 0, std::polar(1.0, .9), std::polar(1.0, -.2), 0 } };
    const CM cg(g), cgp(gp), cgi(gi);
    const complex p0 = cc(gp.m[0]), p3 = cc(gp.m[3]), i1 = cc(gi.m[1]), i2 = cc(gi.m[2]);
    add1(A, "Mtrx[g]", n, g, [=](QInterface& q, bitLenInt t) { q.Mtrx(cg.m, t); });
    add1(A, "Mtrx[phase]", n, gp, [=](QInterface& q, bitLenInt t) { q.Mtrx(cgp.m, t); });
    add1(A, "Mtrx[invert]", n, gi, [=](QInterface& q, bitLenInt t) { q.Mtrx(cgi.m, t); });
    add1(A, "Phase[g]", n, gp, G1(Phase(p0, p3, t)));
    add1(A, "Invert[g]", n, gi, G1(Invert(i1, i2, t)));
    // controlled
    add2c(A, "CH", n, false, H, G2(CH(c, t)));
    add2c(A, "AntiCH", n, true, H, G2(AntiCH(c, t)));
    add2c(A, "CS", n, false, S, G2(CS(c, t)));
    add2c(A, "AntiCS", n, true, S, G2(AntiCS(c, t)));
    add2c(A, "CIS", n, false, IS, G2(CIS(c, t)));
    add2c(A, "AntiCIS", n, true, IS, G2(AntiCIS(c, t)));
    add2c(A, "CT", n, false, T, G2(CT(c, t)));
    add2c(A, "CIT", n, false, IT, G2(CIT(c, t)));
    for (int k : { 1, 2, 3 }) {
        add2c(A, fmt("CPhaseRootN[%d]", k), n, false, mP(-2 * PI / (1 << k)), G2(CPhaseRootN(k, c, t)));
        add2c(A, fmt("CIPhaseRootN[%d]", k), n, false, mP(2 * PI / (1 << k)), G2(CIPhaseRootN(k, c, t)));
        add2c(A, fmt("AntiCIPhaseRootN[%d]", k), n, true, mP(2 * PI / (1 << k)), G2(AntiCIPhaseRootN(k, c, t)));
        add2c(A, fmt("AntiCPhaseRootN[%d]", k), n, true, mP(-2 * PI / (1 << k)), G2(AntiCPhaseRootN(k, c, t)));
    }
    add2c(A, "CRZ[.7]", n, false, mRZ(.7), G2(CRZ(.7, c, t)));
    add2c(A, "CRY[.7]", n, false, mRY(.7), G2(CRY(.7, c, t)));
    add2c(A, "CAI[.6,1.3]", n, false, mAI(.6, 1.3), G2(CAI(c, t, .6, 1.3)));
    add2c(A, "CIAI[.6,1.3]", n, false, adj(mAI(.6, 1.3)), G2(CIAI(c, t, .6, 1.3)));
    add2c(A, "AntiCAI[.6,1.3]", n, true, mAI(.6, 1.3), G2(AntiCAI(c, t, .6, 1.3)));
    add2c(A, "AntiCIAI[.6,1.3]", n, true, adj(mAI(.6, 1.3)), G2(AntiCIAI(c, t, .6, 1.3)));
    const int kmax = o.multi ? std::min(n - 1, 3) : 1;
    for (int k = 0; k <= kmax; ++k) {
        addMC(A, "MCMtrx[g]", n, k, 1, g, GM(MCMtrx(c, cg.m, t)));
        addMC(A, "MACMtrx[g]", n, k, 0, g, GM(MACMtrx(c, cg.m, t)));
        addMC(A, "MCPhase[g]", n, k, 1, gp, GM(MCPhase(c, p0, p3, t)));
        addMC(A, "MACPhase[g]", n, k, 0, gp, GM(MACPhase(c, p0, p3, t)));
        addMC(A, "MCInvert[g]", n, k, 1, gi, GM(MCInvert(c, i1, i2, t)));
        addMC(A, "MACInvert[g]", n, k, 0, gi, GM(MACInvert(c, i1, i2, t)));
        if (k) {
            addMC(A, "MCMtrx[phase]", n, k, 1, gp, GM(MCMtrx(c, cgp.m, t)));
            addMC(A, "MACMtrx[invert]", n, k, 0, gi, GM(MACMtrx(c, cgi.m, t)));
            addMC(A, "CU", n, k, 1, mU(.7, .4, 1.1), GM(CU(c, t, .7, .4, 1.1)));
            addMC(A, "AntiCU", n, k, 0, mU(.7, .4, 1.1), GM(AntiCU(c, t, .7, .4, 1.1)));
            addMC(A, "UCMtrx[g]", n, k, -1, g, GM(UCMtrx(c, cg.m, t, perm)));
            addMC(A, "UCPhase[g]", n, k, -1, gp, GM(UCPhase(c, p0, p3, t, perm)));
            addMC(A, "UCInvert[g]", n, k, -1, gi, GM(UCInvert(c, i1, i2, t, perm)));
        }
    }
    addSwapLike(A, "SqrtSwap", n, mSwapLike(cd(.5, .5), cd(.5, -.5)),
        [](QInterface& q, bitLenInt a, bitLenInt b) { q.SqrtSwap(a, b); });
    addSwapLike(A, "ISqrtSwap", n, mSwapLike(cd(.5, -.5), cd(.5, .5)),
        [](QInterface& q, bitLenInt a, bitLenInt b) { q.ISqrtSwap(a, b); });
    for (auto tp : { std::make_pair(.4, .9), std::make_pair(PI / 2, 0.3), std::make_pair(-PI / 2, 0.0), std::make_pair(0.0, .8) }) {
        double th = tp.first, ph = tp.second;
        addSwapLike(A, fmt("FSim[%.2f,%.2f]", th, ph), n,
            { 1, 0, 0, 0, 0, cos(th), cd(0, -sin(th)), 0, 0, cd(0, -sin(th)), cos(th), 0, 0, 0, 0, std::polar(1.0, -ph) },
            [=](QInterface& q, bitLenInt a, bitLenInt b) { q.FSim(th, ph, a, b); });
    }
    // parity phases
    for (u64 m = 1; m < (1ULL << n); ++m) {
        auto odd = [=](u64 i) { return __builtin_popcountll(i & m) & 1; };
        A.push_back({ fmt("PhaseParity[.7](%llu)", (unsigned long long)m), [=](Ctx& c) {
                         c.q->PhaseParity(.7, m);
                         c.r.diag([=](u64 i) { return std::polar(1.0, odd(i) ? .35 : -.35); });
                     } });
        A.push_back({ fmt("PhaseRootNMask[3](%llu)", (unsigned long long)m), [=](Ctx& c) {
                         c.q->PhaseRootNMask(3, m);
                         c.r.diag([=](u64 i) { return std::polar(1.0, -__builtin_popcountll(i & m) * PI / 4); });
                     } });
    }
    if (!o.multi)
        return A;
    // -- three qubit
    add3c(A, "CCNOT", n, false, X, G3(CCNOT(c, d, t)));
    add3c(A, "CCY", n, false, Y, G3(CCY(c, d, t)));
    add3c(A, "CCZ", n, false, Z, G3(CCZ(c, d, t)));
    add3c(A, "AntiCCNOT", n, true, X, G3(AntiCCNOT(c, d, t)));
    add3c(A, "AntiCCY", n, true, Y, G3(AntiCCY(c, d, t)));
    add3c(A, "AntiCCZ", n, true, Z, G3(AntiCCZ(c, d, t)));
    for (int k = 0; k <= std::min(2, n - 2); ++k) {
        addCSwapLike(A, "CSwap", n, k, false, mSwapLike(0, 1), GC(CSwap(c, x, y)));
        addCSwapLike(A, "CSqrtSwap", n, k, false, mSwapLike(cd(.5, .5), cd(.5, -.5)), GC(CSqrtSwap(c, x, y)));
        addCSwapLike(A, "CISqrtSwap", n, k, false, mSwapLike(cd(.5, -.5), cd(.5, .5)), GC(CISqrtSwap(c, x, y)));
        addCSwapLike(A, "AntiCSwap", n, k, true, mSwapLike(0, 1), GC(AntiCSwap(c, x, y)));
        addCSwapLike(A, "AntiCSqrtSwap", n, k, true, mSwapLike(cd(.5, .5), cd(.5, -.5)), GC(AntiCSqrtSwap(c, x, y)));
        addCSwapLike(A, "AntiCISqrtSwap", n, k, true, mSwapLike(cd(.5, -.5), cd(.5, .5)), GC(AntiCISqrtSwap(c, x, y)));
    }
    // uniformly controlled
    for (int k = 0; k <= std::min(2, n - 1); ++k)
        placements(n, k + 1, [&](const std::vector<int>& p) {
            std::vector<int> cs(p.begin(), p.begin() + k);
            Bits b(cs.begin(), cs.end());
            int t = p[k];
            std::vector<M2> us, ys, zs;
            std::vector<real1> ang;
            std::vector<complex> flat;
            for (int j = 0; j < (1 << k); ++j) {
                us.push_back(mU(.4 + .5 * j, .2 * j, -.3 + .4 * j));
                ang.push_back((real1)(.3 + .6 * j));
                ys.push_back(mRY(ang.back()));
                zs.push_back(mRZ(ang.back()));
                CM c(us.back());
                flat.insert(flat.end(), c.m, c.m + 4);
            }
            auto ref = [=](Ref& r, const std::vector<M2>& g) {
                for (int j = 0; j < (1 << k); ++j) {
                    u64 v = 0;
                    for (int i = 0; i < k; ++i)
                        if ((j >> i) & 1)
                            v |= 1ULL << cs[i];
                    r.ctl(maskOf(b), v, t, g[j]);
                }
            };
            std::string a = "(" + bitsStr(cs) + "," + std::to_string(t) + ")";
            A.push_back({ "UniformlyControlledSingleBit" + a, [=](Ctx& c) {
                             c.q->UniformlyControlledSingleBit(b, t, flat.data());
                             ref(c.r, us);
                         } });
            A.push_back({ "UniformlyControlledRY" + a, [=](Ctx& c) {
                             c.q->UniformlyControlledRY(b, t, ang.data());
                             ref(c.r, ys);
                         } });
            A.push_back({ "UniformlyControlledRZ" + a, [=](Ctx& c) {
                             c.q->UniformlyControlledRZ(b, t, ang.data());
                             ref(c.r, zs);
                         } });
            if (k) {
                // "skip" variant: matrix table indexed with one extra, classically fixed, bit
                std::vector<complex> big(8 << k);
                std::vector<M2> sel;
                for (int j = 0; j < (2 << k); ++j) {
                    M2 u = mU(.2 + .3 * j, .1 * j, .25 * j);
                    CM c(u);
                    std::copy(c.m, c.m + 4, big.begin() + 4 * j);
                    if (j & 2)
                        sel.push_back(u);
                }
                std::vector<bitCapInt> skip{ (bitCapInt)2 };
                A.push_back({ "UniformlyControlledSingleBit[skip]" + a, [=](Ctx& c) {
                                 c.q->UniformlyControlledSingleBit(b, t, big.data(), skip, (bitCapInt)2);
                                 ref(c.r, sel);
                             } });
            }
        });
    // -- Boolean logic onto an output qubit
    typedef void (QInterface::*L3)(bitLenInt, bitLenInt, bitLenInt);
    struct {
        const char* nm;
        L3 f;
        std::function<int(int, int)> v;
    } lg[] = {
        { "AND", (L3)&QInterface::AND, [](int a, int b) { return a & b; } },
        { "OR", (L3)&QInterface::OR, [](int a, int b) { return a | b; } },
        { "XOR", (L3)&QInterface::XOR, [](int a, int b) { return a ^ b; } },
        { "NAND", (L3)&QInterface::NAND, [](int a, int b) { return !(a & b); } },
        { "NOR", (L3)&QInterface::NOR, [](int a, int b) { return !(a | b); } },
        { "XNOR", (L3)&QInterface::XNOR, [](int a, int b) { return !(a ^ b); } },
    };
    for (auto& l : lg)
        placements(n, 3, [&](const std::vector<int>& p) {
            int x = p[0], y = p[1], z = p[2];
            auto f = l.f;
            auto v = l.v;
            A.push_back({ std::string(l.nm) + fmt("(%d,%d,%d)", x, y, z), [=](Ctx& c) {
                             (c.q.get()->*f)(x, y, z);
                             c.r.perm([=](u64 i) { return i ^ ((u64)v((i >> x) & 1, (i >> y) & 1) << z); });
                         } });
        });
    for (auto& l : lg)
        placements(n, 2, [&](const std::vector<int>& p) {
            int x = p[0], z = p[1];
            auto f = l.f;
            auto v = l.v;
            A.push_back({ std::string(l.nm) + fmt("(%d,%d,%d)", x, x, z), [=](Ctx& c) {
                             (c.q.get()->*f)(x, x, z);
                             c.r.perm([=](u64 i) { return i ^ ((u64)v((i >> x) & 1, (i >> x) & 1) << z); });
                         } });
        });
    typedef void (QInterface::*LC)(bitLenInt, bool, bitLenInt);
    struct {
        const char* nm;
        LC f;
        std::function<int(int, int)> v;
    } lc[] = {
        { "CLAND", (LC)&QInterface::CLAND, [](int a, int b) { return a & b; } },
        { "CLOR", (LC)&QInterface::CLOR, [](int a, int b) { return a | b; } },
        { "CLXOR", (LC)&QInterface::CLXOR, [](int a, int b) { return a ^ b; } },
        { "CLNAND", (LC)&QInterface::CLNAND, [](int a, int b) { return !(a & b); } },
        { "CLNOR", (LC)&QInterface::CLNOR, [](int a, int b) { return !(a | b); } },
        { "CLXNOR", (LC)&QInterface::CLXNOR, [](int a, int b) { return !(a ^ b); } },
    };
    for (auto& l : lc)
        placements(n, 2, [&](const std::vector<int>& p) {
            for (int cl = 0; cl < 2; ++cl) {
                int x = p[0], z = p[1];
                auto f = l.f;
                auto v = l.v;
                A.push_back({ std::string(l.nm) + fmt("(%d,c%d,%d)", x, cl, z), [=](Ctx& c) {
                                 (c.q.get()->*f)(x, cl, z);
                                 c.r.perm([=](u64 i) { return i ^ ((u64)v((i >> x) & 1, cl) << z); });
                             } });
            }
        });
    // -- composed subroutines
    for (int st = 0; st < n; ++st)
        for (int len = 1; st + len <= n; ++len) {
            auto dft = [=](Ref& r, int sign) {
                const u64 N = 1ULL << len, m = (N - 1) << st;
                std::vector<cd> o(r.a.size());
                for (u64 i = 0; i < r.a.size(); ++i) {
                    u64 x = (i & m) >> st;
                    for (u64 y = 0; y < N; ++y)
                        o[(i & ~m) | (y << st)] += r.a[i] * std::polar(1 / std::sqrt((double)N), sign * 2 * PI * (double)(x * y) / (double)N);
                }
                r.a = o;
            };
            // PhaseRootN is documented as a *negative* rotation and QFT is built from it: the exponent is negative.
            // Qrack's QFT leaves out the final bit reversal: IQFT(QFT) is the identity and, followed by Reverse, it is
            // the discrete Fourier transform (see the documentation of QFT and its callers).
            auto rev = [=](Ref& r) {
                r.perm([=](u64 i) {
                    u64 o = i;
                    for (int k = 0; k < len; ++k) {
                        int d = st + len - 1 - k;
                        o = (o & ~(1ULL << d)) | (((i >> (st + k)) & 1) << d);
                    }
                    return o;
                });
            };
            A.push_back({ fmt("QFT(%d,%d)", st, len), [=](Ctx& c) {
                             c.q->QFT(st, len);
                             dft(c.r, -1);
                             rev(c.r);
                         } });
            A.push_back({ fmt("IQFT(%d,%d)", st, len), [=](Ctx& c) {
                             c.q->IQFT(st, len);
                             rev(c.r);
                             dft(c.r, 1);
                         } });
            A.push_back({ fmt("QFTR(%d,%d)", st, len), [=](Ctx& c) {
                             Bits b;
                             for (int k = 0; k < len; ++k)
                                 b.push_back(st + k);
                             c.q->QFTR(b);
                             dft(c.r, -1);
                             rev(c.r);
                         } });
            A.push_back({ fmt("IQFTR(%d,%d)", st, len), [=](Ctx& c) {
                             Bits b;
                             for (int k = 0; k < len; ++k)
                                 b.push_back(st + k);
                             c.q->IQFTR(b);
                             rev(c.r);
                             dft(c.r, 1);
                         } });
            A.push_back({ fmt("ZeroPhaseFlip(%d,%d)", st, len), [=](Ctx& c) {
                             c.q->ZeroPhaseFlip(st, len);
                             u64 m = ((1ULL << len) - 1) << st;
                             c.r.diag([=](u64 i) { return (i & m) ? 1.0 : -1.0; });
                         } });
            for (int sh = 0; sh <= len; ++sh) {
                A.push_back({ fmt("ROL(%d,%d,%d)", sh, st, len), [=](Ctx& c) {
                                 c.q->ROL(sh, st, len);
                                 u64 m = (1ULL << len) - 1;
                                 c.r.perm([=](u64 i) {
                                     u64 v = (i >> st) & m;
                                     int k = sh % len;
                                     v = ((v << k) | (v >> (len - k))) & m;
                                     return (i & ~(m << st)) | (v << st);
                                 });
                             } });
                A.push_back({ fmt("ROR(%d,%d,%d)", sh, st, len), [=](Ctx& c) {
                                 c.q->ROR(sh, st, len);
                                 u64 m = (1ULL << len) - 1;
                                 c.r.perm([=](u64 i) {
                                     u64 v = (i >> st) & m;
                                     int k = sh % len;
                                     v = ((v >> k) | (v << (len - k))) & m;
                                     return (i & ~(m << st)) | (v << st);
                                 });
                             } });
            }
        }
    return A;
}

// exp(-i H t) with all the ways of writing a term
inline Alphabet hamiltonianAlphabet(int n)
{
    Alphabet A;
    const M2 hz = { { .3, 0, 0, -.8 } }, hx = { { .2, .5, .5, .2 } }, hg = { { .4, cd(.3, -.6), cd(.3, .6), -.7 } };
    std::vector<std::pair<std::string, M2>> hs{ { "Hdiag", hz }, { "Hx", hx }, { "Hgen", hg } };
    for (auto& h : hs)
        for (double tm : { .7, -1.3 }) {
            const M2 e = mExpH(h.second, tm);
            const M2 hm = h.second;
            for (int t = 0; t < n; ++t)
                A.push_back({ fmt("TimeEvolve[%s,t=%.1f](%d)", h.first.c_str(), tm, t), [=](Ctx& c) {
                                 Hamiltonian H{ std::make_shared<HamiltonianOp>((bitLenInt)t, bitOp({ hm })) };
                                 c.q->TimeEvolve(H, tm);
                                 c.r.g1(t, e);
                             } });
            placements(n, 2, [&](const std::vector<int>& p) {
                for (int anti = 0; anti < 2; ++anti)
                    for (int tog = 0; tog < 2; ++tog) {
                        int c0 = p[0], t = p[1];
                        A.push_back({ fmt("TimeEvolve[%s,t=%.1f,anti=%d,toggle=%d](%d,%d)", h.first.c_str(), tm, anti,
                                          tog, c0, t),
                            [=](Ctx& c) {
                                Hamiltonian H{ std::make_shared<HamiltonianOp>(Bits{ (bitLenInt)c0 }, (bitLenInt)t,
                                    bitOp({ hm }), (bool)anti, std::vector<bool>{ (bool)tog }) };
                                c.q->TimeEvolve(H, tm);
                                c.r.ctl(1ULL << c0, (anti ^ tog) ? 0 : 1ULL << c0, t, e);
                            } });
                    }
                int c0 = p[0], t = p[1];
                A.push_back({ fmt("TimeEvolve[uniform %s/Hz,t=%.1f](%d,%d)", h.first.c_str(), tm, c0, t), [=](Ctx& c) {
                                 Hamiltonian H{ std::make_shared<UniformHamiltonianOp>(
                                     Bits{ (bitLenInt)c0 }, (bitLenInt)t, bitOp({ hm, hz })) };
                                 c.q->TimeEvolve(H, tm);
                                 c.r.ctl(1ULL << c0, 0, t, e);
                                 c.r.ctl(1ULL << c0, 1ULL << c0, t, mExpH(hz, tm));
                             } });
            });
        }
    // two terms: applied right to left, term 0 first
    for (int t = 0; t + 1 < n; ++t)
        A.push_back({ fmt("TimeEvolve[Hx(%d),Hgen(%d),C(%d)Hz(%d)]", t, t + 1, t, t + 1), [=](Ctx& c) {
                         Hamiltonian H{ std::make_shared<HamiltonianOp>((bitLenInt)t, bitOp({ hx })),
                             std::make_shared<HamiltonianOp>((bitLenInt)(t + 1), bitOp({ hg })),
                             std::make_shared<HamiltonianOp>(Bits{ (bitLenInt)t }, (bitLenInt)(t + 1), bitOp({ hz })) };
                         c.q->TimeEvolve(H, .9);
                         c.r.g1(t, mExpH(hx, .9));
                         c.r.g1(t + 1, mExpH(hg, .9));
                         c.r.ctl(1ULL << t, 1ULL << t, t + 1, mExpH(hz, .9));
                     } });
    return A;
}

// per-qubit preparations and entanglers used as non-initial start states
inline std::vector<Alphabet> prepMenu(int n, bool clifford, bool light = false)
{
    // returns a list of short op sequences
    std::vector<std::pair<std::string, std::vector<std::pair<int, M2>>>> dummy;
    std::vector<Alphabet> out;
    struct P {
        const char* nm;
        std::function<void(Ctx&, int)> f;
    };
    std::vector<P> loc{ { "0", [](Ctx&, int) {} },
        { "1", [](Ctx& c, int t) { c.q->X(t); c.r.g1(t, mX()); } },
        { "+", [](Ctx& c, int t) { c.q->H(t); c.r.g1(t, mH()); } },
        { "-i", [](Ctx& c, int t) { c.q->H(t); c.q->IS(t); c.r.g1(t, mul(mP(-PI / 2), mH())); } } };
    if (!clifford)
        loc.push_back({ "u", [](Ctx& c, int t) { c.q->U(t, .9 + .2 * t, .5, -.4 + .3 * t); c.r.g1(t, mU(.9 + .2 * t, .5, -.4 + .3 * t)); } });
    else
        loc.push_back({ "-", [](Ctx& c, int t) { c.q->X(t); c.q->H(t); c.r.g1(t, mul(mH(), mX())); } });
    if (light)
        loc.erase(loc.begin()), loc.erase(loc.begin() + 1); // 1, -i, u
    struct E {
        const char* nm;
        std::function<void(Ctx&)> f;
    };
    auto cx = [](int a, int b) { return [=](Ctx& c) { c.q->CNOT(a, b); c.r.ctl(1ULL << a, 1ULL << a, b, mX()); }; };
    auto cz = [](int a, int b) { return [=](Ctx& c) { c.q->CZ(a, b); c.r.ctl(1ULL << a, 1ULL << a, b, mZ()); }; };
    auto acx = [](int a, int b) { return [=](Ctx& c) { c.q->AntiCNOT(a, b); c.r.ctl(1ULL << a, 0, b, mX()); }; };
    std::vector<E> ent{ { "", [](Ctx&) {} }, { "cx01", cx(0, 1) }, { "cz01", cz(0, 1) } };
    if (n >= 3) {
        ent.push_back({ "cx12.cx01", [=](Ctx& c) { cx(1, 2)(c); cx(0, 1)(c); } });
        ent.push_back({ "acx20.cz01", [=](Ctx& c) { acx(2, 0)(c); cz(0, 1)(c); } });
    } else
        ent.push_back({ "acx10", acx(1, 0) });
    if (light)
        ent = { ent[0], ent[1], ent.back() };
    if (n == 1)
        ent.resize(1);
    u64 N = 1;
    for (int i = 0; i < n; ++i)
        N *= loc.size();
    for (auto& e : ent)
        for (u64 k = 0; k < N; ++k) {
            std::string nm = "prep ";
            std::vector<std::function<void(Ctx&, int)>> fs;
            u64 x = k;
            for (int i = 0; i < n; ++i) {
                nm += std::string(i ? "," : "") + loc[x % loc.size()].nm;
                fs.push_back(loc[x % loc.size()].f);
                x /= loc.size();
            }
            if (*e.nm)
                nm += std::string(" ") + e.nm;
            auto ef = e.f;
            Alphabet a;
            a.push_back({ nm, [=](Ctx& c) {
                             for (size_t i = 0; i < fs.size(); ++i)
                                 fs[i](c, (int)i);
                             ef(c);
                         } });
            out.push_back(a);
        }
    return out;
}

// A compact alphabet for long histories: every class of state-changing call once, all placements for the two-qubit ones.
// Measurement is included with a forced outcome: the one the reference gives the larger probability (ties: 0).
inline int likely(const Ref& r, int t) { return r.prob(1ULL << t, 1ULL << t) > 0.5 + 1e-6 ? 1 : 0; }
inline Alphabet coreAlphabet(int n, bool clifford, bool measure = true)
{
    Alphabet A;
    auto one = [&](const char* nm, const M2& g, std::function<void(QInterface&, bitLenInt)> f) { add1(A, nm, n, g, f); };
    one("H", mH(), [](QInterface& q, bitLenInt t) { q.H(t); });
    one("X", mX(), [](QInterface& q, bitLenInt t) { q.X(t); });
    one("S", mP(PI / 2), [](QInterface& q, bitLenInt t) { q.S(t); });
    if (!clifford) {
        one("T", mP(PI / 4), [](QInterface& q, bitLenInt t) { q.T(t); });
        one("U", mU(.9, .5, -.4), [](QInterface& q, bitLenInt t) { q.U(t, .9, .5, -.4); });
    }
    auto two = [&](const char* nm, bool anti, const M2& g, std::function<void(QInterface&, bitLenInt, bitLenInt)> f) {
        add2c(A, nm, n, anti, g, f);
    };
    two("CNOT", false, mX(), [](QInterface& q, bitLenInt a, bitLenInt b) { q.CNOT(a, b); });
    two("AntiCY", true, mY(), [](QInterface& q, bitLenInt a, bitLenInt b) { q.AntiCY(a, b); });
    for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b) {
            A.push_back({ fmt("CZ(%d,%d)", a, b), [=](Ctx& c) {
                             c.q->CZ(a, b);
                             c.r.ctl(1ULL << a, 1ULL << a, b, mZ());
                         } });
            A.push_back({ fmt("Swap(%d,%d)", a, b), [=](Ctx& c) {
                             c.q->Swap(a, b);
                             apply4(c.r, a, b, mSwapLike(0, 1));
                         } });
            A.push_back({ fmt("ISwap(%d,%d)", a, b), [=](Ctx& c) {
                             c.q->ISwap(a, b);
                             apply4(c.r, a, b, mSwapLike(0, cd(0, 1)));
                         } });
            if (!clifford)
                A.push_back({ fmt("CPh(%d,%d)", a, b), [=](Ctx& c) {
                                 M2 g{ { 1, 0, 0, std::polar(1.0, 0.7) } };
                                 c.q->MCPhase({ (bitLenInt)a }, ONE_CMPLX, std::polar(ONE_R1, (real1)0.7), b);
                                 c.r.ctl(1ULL << a, 1ULL << a, b, g);
                             } });
        }
    if (!clifford && n >= 3) {
        A.push_back({ "CCNOT(0,1,2)", [=](Ctx& c) {
                         c.q->CCNOT(0, 1, 2);
                         c.r.ctl(3, 3, 2, mX());
                     } });
        A.push_back({ "CSwap(2;0,1)", [=](Ctx& c) {
                         c.q->CSwap({ 2 }, 0, 1);
                         apply4(c.r, 0, 1, mSwapLike(0, 1), 4, 4);
                     } });
    }
    if (measure)
        for (int t = 0; t < n; ++t)
            A.push_back({ fmt("ForceM(%d)", t), [=](Ctx& c) {
                             bool v = likely(c.r, t);
                             bool g = c.q->ForceM(t, v, true, true);
                             MC_CHECK(g == v, "ForceM(%d) returned %d although %d was demanded", t, (int)g, (int)v);
                             c.r.project(1ULL << t, v ? 1ULL << t : 0);
                         } });
    return A;
}

// ---------------------------------------------------------------- generic suite builders
// every (start state, op) pair
inline Suite prepOpSuite(const std::string& name, const Stack& st, int n, const std::vector<Alphabet>& preps,
    const Alphabet& ops, std::function<void(Ctx&)> post = nullptr)
{
    Suite s;
    s.name = name;
    s.env = st.env;
    s.count = (u64)preps.size() * ops.size();
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto O = std::make_shared<Alphabet>(ops);
    const Stack* sp = &st;
    s.run = [=](u64 i) {
        Ctx c;
        c.start(*sp, n);
        const Alphabet& p = (*P)[i / O->size()];
        for (auto& o : p)
            o.f(c);
        (*O)[i % O->size()].f(c);
        transition(p.size() + 1);
        if (post)
            post(c);
        else
            compareState(c.q, c.r, c.tol);
        visited(mix(c.r.hash(), 0));
    };
    s.describe = [=](u64 i) {
        std::string d;
        for (auto& o : (*P)[i / O->size()])
            d += o.name + "; ";
        return d + (*O)[i % O->size()].name;
    };
    return s;
}
// every sequence of exactly `depth` ops, after each prep
inline Suite seqSuite(const std::string& name, const Stack& st, int n, const std::vector<Alphabet>& preps,
    const Alphabet& ops, int depth, std::function<void(Ctx&)> post = nullptr)
{
    Suite s;
    s.name = name;
    s.env = st.env;
    u64 N = 1;
    for (int i = 0; i < depth; ++i)
        N *= ops.size();
    s.count = N * preps.size();
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto O = std::make_shared<Alphabet>(ops);
    const Stack* sp = &st;
    s.run = [=](u64 i) {
        Ctx c;
        c.start(*sp, n);
        const Alphabet& p = (*P)[i / N];
        for (auto& o : p)
            o.f(c);
        u64 k = i % N, d = N;
        for (int j = 0; j < depth; ++j) {
            d /= O->size();
            (*O)[(k / d) % O->size()].f(c);
        }
        transition(p.size() + depth);
        if (post)
            post(c);
        else
            compareState(c.q, c.r, c.tol);
        visited(mix(c.r.hash(), 0));
    };
    s.describe = [=](u64 i) {
        std::string r;
        for (auto& o : (*P)[i / N])
            r += o.name + "; ";
        u64 k = i % N, d = N;
        for (int j = 0; j < depth; ++j) {
            d /= O->size();
            r += (*O)[(k / d) % O->size()].name + (j + 1 < depth ? "; " : "");
        }
        return r;
    };
    return s;
}
inline std::vector<Alphabet> noPrep() { return { Alphabet{ Op{ "zero state", [](Ctx&) {} } } }; }

} // namespace mc
