// C06: arithmetic.  Every arithmetic and shift call x every register placement and argument x every start state of a menu:
// the call is the documented integer function on every basis state at once (linearity: superposed, entangled and classical
// registers), on every stack; calls that first measure or clear a qubit do that and nothing more.
#include "gates.hpp"
using namespace mc;

struct ACall {
    std::string name;
    std::function<void(Ctx&)> call;
    u64 zero = 0; // qubits that are |0> beforehand (documented precondition)
    u64 measured = 0; // measured first; the value is an input of fn
    u64 cleared = 0; // measured and cleared first
    std::function<u64(u64, cd&)> fn;
    std::shared_ptr<ACall> before; // a call that brings the state into this one's domain
    u64 free = 0; // filled in: the qubits a start state may use
};
typedef std::vector<ACall> Calls;
typedef std::vector<int> VI;
typedef std::function<u64(u64, cd&)> Fn;

struct Reg { // register of `len` qubits at `start`
    int start, len;
    u64 mask() const { return ((1ULL << len) - 1) << start; }
    u64 get(u64 b) const { return (b & mask()) >> start; }
    u64 set(u64 b, u64 v) const { return (b & ~mask()) | ((v << start) & mask()); }
};
static u64 bit(u64 b, int i) { return (b >> i) & 1; }
static u64 setb(u64 b, int i, u64 v) { return (b & ~(1ULL << i)) | (v << i); }

static QAluPtr alu(Ctx& c) { return std::dynamic_pointer_cast<QAlu>(c.q); }

// the image of the reference state: one candidate per outcome of the qubits that are measured
static std::vector<Ref> images(const Ref& r, const ACall& a)
{
    std::vector<Ref> out;
    const u64 mm = a.measured | a.cleared;
    auto apply = [&](const Ref& in) {
        Ref o(in.n);
        o.a.assign(in.a.size(), 0);
        for (u64 i = 0; i < in.a.size(); ++i)
            if (std::abs(in.a[i]) > 1e-9) {
                cd amp = 1;
                u64 j = a.fn(i & ~a.cleared, amp);
                o.a[j] += amp * in.a[i];
            }
        out.push_back(o);
    };
    if (!mm) {
        apply(r);
        return out;
    }
    u64 v = 0;
    do {
        if (r.prob(mm, v) > 1e-5) {
            Ref p = r;
            p.project(mm, v);
            apply(p);
        }
        v = (v - mm) & mm;
    } while (v);
    return out;
}

static void step(Ctx& c, const ACall& a, const char* what)
{
    std::vector<Ref> im = images(c.r, a);
    a.call(c);
    if (im.size() == 1) {
        c.r = im[0];
        compareState(c.q, c.r, c.tol, what);
        return;
    }
    std::vector<cd> s = implState(c.q);
    double best = 9;
    size_t bi = 0;
    for (size_t i = 0; i < im.size(); ++i) {
        double d = distance(s, im[i].a);
        if (d < best)
            best = d, bi = i;
    }
    MC_CHECK(best <= c.tol, "%s: matches none of the %d possible results (closest %.4g)\n   got %s", what, (int)im.size(), best, show(s).c_str());
    deviation(best);
    c.r = im[bi];
}

// ---------------------------------------------------------------- start states
struct Prep {
    std::string name;
    std::function<void(Ctx&)> f;
};
static std::vector<Prep> preps(const VI& q, int level) // level -1: fewest, 0: few, 1: quick, 2: all
{
    std::vector<Prep> out;
    for (int e = 0; e < (q.size() > 1 ? 3 : 1); ++e) {
        std::string labels = q.size() > 5 ? "1u" : level <= 0 ? "1u" : level == 1 ? (e ? "1+u" : "1u") : "01+u";
        if (level == 2 && q.size() > 5)
            labels = "1+u";
        if ((level == 0 && e == 1) || (level < 0 && e < 2))
            continue;
        u64 N = 1;
        for (size_t i = 0; i < q.size(); ++i)
            N *= labels.size();
        for (u64 k = 0; k < N; ++k) {
            std::string nm;
            u64 x = k;
            for (size_t i = 0; i < q.size(); ++i, x /= labels.size())
                nm += labels[x % labels.size()];
            const std::string loc = nm;
            nm += e == 0 ? "" : e == 1 ? " chain" : " mixed";
            out.push_back({ "prep " + bitsStr(q) + "=" + nm, [=](Ctx& c) {
                               for (size_t i = 0; i < q.size(); ++i) {
                                   int t = q[i];
                                   switch (loc[i]) {
                                   case '1':
                                       c.q->X(t);
                                       c.r.g1(t, mX());
                                       break;
                                   case '+':
                                       c.q->H(t);
                                       c.r.g1(t, mH());
                                       break;
                                   case 'u':
                                       c.q->U(t, .9 + .2 * i, .5, -.4 + .3 * i);
                                       c.r.g1(t, mU(.9 + .2 * i, .5, -.4 + .3 * i));
                                       break;
                                   }
                               }
                               if (e == 1)
                                   for (size_t i = 0; i + 1 < q.size(); ++i) {
                                       c.q->CNOT(q[i], q[i + 1]);
                                       c.r.ctl(1ULL << q[i], 1ULL << q[i], q[i + 1], mX());
                                   }
                               if (e == 2) {
                                   // phase buffers, entangled pairs, and a generic controlled gate
                                   c.q->CZ(q[0], q.back());
                                   c.r.ctl(1ULL << q[0], 1ULL << q[0], q.back(), mZ());
                                   c.q->H(q.back());
                                   c.r.g1(q.back(), mH());
                                   c.q->AntiCNOT(q.back(), q[0]);
                                   c.r.ctl(1ULL << q.back(), 0, q[0], mX());
                               }
                           } });
        }
    }
    return out;
}

// ---------------------------------------------------------------- the calls
static void regs(int n, int maxLen, const std::function<void(Reg)>& f)
{
    for (int l = 1; l <= maxLen; ++l)
        for (int s = 0; s + l <= n; ++s)
            f({ s, l });
}
static VI outside(int n, u64 mask)
{
    VI v;
    for (int i = 0; i < n; ++i)
        if (!((mask >> i) & 1))
            v.push_back(i);
    return v;
}
// ordered selections of k of the elements
static void pick(const VI& v, int k, const std::function<void(const VI&)>& f)
{
    placements((int)v.size(), k, [&](const VI& p) {
        VI o;
        for (int i : p)
            o.push_back(v[i]);
        f(o);
    });
}
static Bits B(const VI& v) { return Bits(v.begin(), v.end()); }
static bool overflow(u64 x, u64 a, int l)
{
    auto sg = [&](u64 v) { return (long long)v - (((v >> (l - 1)) & 1) ? (1LL << l) : 0); };
    long long t = sg(x) + sg(a);
    return t < -(1LL << (l - 1)) || t >= (1LL << (l - 1));
}

static ACall mk(const std::string& nm, std::function<void(Ctx&)> call, Fn fn, u64 zero = 0, u64 measured = 0, u64 cleared = 0)
{
    ACall a;
    a.name = nm;
    a.call = call;
    a.fn = fn;
    a.zero = zero;
    a.measured = measured;
    a.cleared = cleared;
    return a;
}

// everything on `n` qubits without preconditions
static Calls plainCalls(int n, bool isAlu)
{
    Calls C;
    for (int via = 0; via <= (isAlu ? 1 : 0); ++via) {
        const char* pre = via ? "QAlu::" : "";
#define BOTH(expr)                                                                                                     \
    [=](Ctx& c) {                                                                                                      \
        if (via)                                                                                                       \
            alu(c)->expr;                                                                                              \
        else                                                                                                           \
            c.q->expr;                                                                                                 \
    }
        regs(n, via ? n - 1 : n, [&](Reg g) {
            const int l = g.len;
            const u64 M = (1ULL << l) - 1;
            for (u64 v = 0; v <= M + 2; ++v) {
                C.push_back(mk(fmt("%sINC(%llu,%d,%d)", pre, v, g.start, l), BOTH(INC(v, g.start, l)), [=](u64 b, cd&) { return g.set(b, (g.get(b) + v) & M); }));
                if (v <= M + 1)
                    C.push_back(mk(fmt("%sDEC(%llu,%d,%d)", pre, v, g.start, l), BOTH(DEC(v, g.start, l)), [=](u64 b, cd&) { return g.set(b, (g.get(b) - v) & M); }));
            }
            VI out = outside(n, g.mask());
            for (int k = 0; k <= std::min<int>(2, out.size()); ++k)
                pick(out, k, [&](const VI& cs) {
                    u64 cm = maskOf(B(cs));
                    for (u64 v = 0; v <= M + (k == 1); ++v) {
                        C.push_back(mk(fmt("%sCINC(%llu,%d,%d,", pre, v, g.start, l) + bitsStr(cs) + ")", BOTH(CINC(v, g.start, l, B(cs))),
                            [=](u64 b, cd&) { return (b & cm) == cm ? g.set(b, (g.get(b) + v) & M) : b; }));
                        C.push_back(mk(fmt("%sCDEC(%llu,%d,%d,", pre, v, g.start, l) + bitsStr(cs) + ")", BOTH(CDEC(v, g.start, l, B(cs))),
                            [=](u64 b, cd&) { return (b & cm) == cm ? g.set(b, (g.get(b) - v) & M) : b; }));
                    }
                });
            for (int f : out)
                for (u64 v = 0; v <= M; ++v) {
                    C.push_back(mk(fmt("%sINCC(%llu,%d,%d,carry=%d)", pre, v, g.start, l, f), BOTH(INCC(v, g.start, l, f)),
                        [=](u64 b, cd&) {
                            u64 t = g.get(b) + v + bit(b, f);
                            return setb(g.set(b, t & M), f, t > M);
                        },
                        0, 1ULL << f));
                    C.push_back(mk(fmt("%sDECC(%llu,%d,%d,carry=%d)", pre, v, g.start, l, f), BOTH(DECC(v, g.start, l, f)),
                        [=](u64 b, cd&) {
                            long long t = (long long)g.get(b) - (long long)v - (bit(b, f) ? 0 : 1);
                            return setb(g.set(b, (u64)t & M), f, t >= 0);
                        },
                        0, 1ULL << f));
                    C.push_back(mk(fmt("%sINCS(%llu,%d,%d,overflow=%d)", pre, v, g.start, l, f), BOTH(INCS(v, g.start, l, f)), [=](u64 b, cd& a) {
                        if (bit(b, f) && overflow(g.get(b), v, l))
                            a = -1;
                        return g.set(b, (g.get(b) + v) & M);
                    }));
                    C.push_back(mk(fmt("%sDECS(%llu,%d,%d,overflow=%d)", pre, v, g.start, l, f), BOTH(DECS(v, g.start, l, f)), [=](u64 b, cd& a) {
                        u64 w = ((1ULL << l) - v) & M;
                        if (bit(b, f) && overflow(g.get(b), w, l))
                            a = -1;
                        return g.set(b, (g.get(b) + w) & M);
                    }));
                }
        });
    }
    regs(n, n, [&](Reg g) {
        const int l = g.len;
        const u64 M = (1ULL << l) - 1;
        for (int sh = 0; sh <= l + 1; ++sh) {
            const int s = sh % l;
            C.push_back(mk(fmt("ROL(%d,%d,%d)", sh, g.start, l), [=](Ctx& c) { c.q->ROL(sh, g.start, l); }, [=](u64 b, cd&) {
                u64 v = g.get(b);
                return g.set(b, ((v << s) | (v >> (l - s))) & M);
            }));
            C.push_back(mk(fmt("ROR(%d,%d,%d)", sh, g.start, l), [=](Ctx& c) { c.q->ROR(sh, g.start, l); }, [=](u64 b, cd&) {
                u64 v = g.get(b);
                return g.set(b, ((v >> s) | (v << (l - s))) & M);
            }));
            const int k = std::min(sh, l);
            const u64 topBits = (((1ULL << k) - 1) << (l - k)) << g.start, lowBits = ((1ULL << k) - 1) << g.start;
            C.push_back(mk(fmt("LSL(%d,%d,%d)", sh, g.start, l), [=](Ctx& c) { c.q->LSL(sh, g.start, l); }, [=](u64 b, cd&) { return g.set(b, (g.get(b) << k) & M); }, 0, 0, topBits));
            C.push_back(mk(fmt("LSR(%d,%d,%d)", sh, g.start, l), [=](Ctx& c) { c.q->LSR(sh, g.start, l); }, [=](u64 b, cd&) { return g.set(b, g.get(b) >> k); }, 0, 0, lowBits));
        }
    });
    if (!isAlu)
        return C;
    regs(n, n, [&](Reg g) {
        const int l = g.len;
        const u64 M = (1ULL << l) - 1;
        for (u64 v = 0; v <= M + 1; ++v) {
            C.push_back(mk(fmt("PhaseFlipIfLess(%llu,%d,%d)", v, g.start, l), [=](Ctx& c) { alu(c)->PhaseFlipIfLess(v, g.start, l); }, [=](u64 b, cd& a) {
                if (g.get(b) < v)
                    a = -1;
                return b;
            }));
            for (int f : outside(n, g.mask()))
                C.push_back(mk(fmt("CPhaseFlipIfLess(%llu,%d,%d,%d)", v, g.start, l, f), [=](Ctx& c) { alu(c)->CPhaseFlipIfLess(v, g.start, l, f); }, [=](u64 b, cd& a) {
                    if (bit(b, f) && g.get(b) < v)
                        a = -1;
                    return b;
                }));
        }
        // bijections
        for (u64 mulv : { 1ULL, 3ULL, 5ULL })
            for (u64 addv : std::vector<u64>{ 0, 1, M }) {
                auto tab = std::make_shared<std::vector<unsigned char>>();
                for (u64 x = 0; x <= M; ++x)
                    tab->push_back((unsigned char)((x * mulv + addv) & M));
                C.push_back(mk(fmt("Hash(%d,%d,x*%llu+%llu)", g.start, l, mulv, addv), [=](Ctx& c) { alu(c)->Hash(g.start, l, tab->data()); }, [=](u64 b, cd&) { return g.set(b, (*tab)[g.get(b)]); }));
            }
        VI out = outside(n, g.mask());
        for (int cf : out)
            for (u64 v = 0; v <= M; ++v) {
                auto inc = [=](u64 t, u64 b) { return setb(g.set(b, t & M), cf, t > M); };
                C.push_back(mk(fmt("INCSC(%llu,%d,%d,carry=%d)", v, g.start, l, cf), [=](Ctx& c) { alu(c)->INCSC(v, g.start, l, cf); }, [=](u64 b, cd& a) {
                    u64 w = v + bit(b, cf);
                    if (overflow(g.get(b), w & M, l))
                        a = -1;
                    return inc(g.get(b) + w, b);
                }, 0, 1ULL << cf));
                C.push_back(mk(fmt("DECSC(%llu,%d,%d,carry=%d)", v, g.start, l, cf), [=](Ctx& c) { alu(c)->DECSC(v, g.start, l, cf); }, [=](u64 b, cd& a) {
                    u64 w = (1ULL << l) - v - (bit(b, cf) ? 0 : 1);
                    if (overflow(g.get(b), w & M, l))
                        a = -1;
                    return inc(g.get(b) + w, b);
                }, 0, 1ULL << cf));
                for (int of : out)
                    if (of != cf) {
                        C.push_back(mk(fmt("INCSC(%llu,%d,%d,overflow=%d,carry=%d)", v, g.start, l, of, cf), [=](Ctx& c) { alu(c)->INCSC(v, g.start, l, of, cf); }, [=](u64 b, cd& a) {
                            u64 w = v + bit(b, cf);
                            if (bit(b, of) && overflow(g.get(b), w & M, l))
                                a = -1;
                            return inc(g.get(b) + w, b);
                        }, 0, 1ULL << cf));
                        C.push_back(mk(fmt("DECSC(%llu,%d,%d,overflow=%d,carry=%d)", v, g.start, l, of, cf), [=](Ctx& c) { alu(c)->DECSC(v, g.start, l, of, cf); }, [=](u64 b, cd& a) {
                            u64 w = (1ULL << l) - v - (bit(b, cf) ? 0 : 1);
                            if (bit(b, of) && overflow(g.get(b), w & M, l))
                                a = -1;
                            return inc(g.get(b) + w, b);
                        }, 0, 1ULL << cf));
                    }
            }
    });
    // classical memory: index and value registers anywhere, every table shape of a menu
    regs(n, 2, [&](Reg ix) {
        regs(n, 2, [&](Reg vl) {
            if (ix.mask() & vl.mask())
                return;
            const u64 M = (1ULL << vl.len) - 1;
            for (int shape = 0; shape < 4; ++shape) {
                auto tab = std::make_shared<std::vector<unsigned char>>();
                for (u64 x = 0; x < (1ULL << ix.len); ++x)
                    tab->push_back((unsigned char)((shape == 0 ? x : shape == 1 ? M : shape == 2 ? 3 * x + 1 : M - x) & M));
                std::string a = fmt("(%d,%d,%d,%d", ix.start, ix.len, vl.start, vl.len), sh = fmt(",table%d)", shape);
                auto tv = [=](u64 b) { return (u64)(*tab)[ix.get(b)]; };
                C.push_back(mk("IndexedLDA" + a + sh, [=](Ctx& c) { alu(c)->IndexedLDA(ix.start, ix.len, vl.start, vl.len, tab->data()); }, [=](u64 b, cd&) { return vl.set(b, tv(b)); }, 0, 0, vl.mask()));
                C.push_back(mk("IndexedLDA[keep]" + a + sh, [=](Ctx& c) { alu(c)->IndexedLDA(ix.start, ix.len, vl.start, vl.len, tab->data(), false); }, [=](u64 b, cd&) { return vl.set(b, tv(b)); }, vl.mask()));
                for (int f : outside(n, ix.mask() | vl.mask())) {
                    C.push_back(mk("IndexedADC" + a + fmt(",carry=%d", f) + sh, [=](Ctx& c) { alu(c)->IndexedADC(ix.start, ix.len, vl.start, vl.len, f, tab->data()); }, [=](u64 b, cd&) {
                        u64 t = vl.get(b) + tv(b) + bit(b, f);
                        return setb(vl.set(b, t & M), f, t > M);
                    }, 0, 1ULL << f));
                    C.push_back(mk("IndexedSBC" + a + fmt(",carry=%d", f) + sh, [=](Ctx& c) { alu(c)->IndexedSBC(ix.start, ix.len, vl.start, vl.len, f, tab->data()); }, [=](u64 b, cd&) {
                        long long t = (long long)vl.get(b) - (long long)tv(b) - (bit(b, f) ? 0 : 1);
                        return setb(vl.set(b, (u64)t & M), f, t >= 0);
                    }, 0, 1ULL << f));
                }
            }
        });
    });
    return C;
}

// calls with a precondition, each followed by its inverse
static void withInverse(Calls& C, const ACall& f, const ACall* inv)
{
    C.push_back(f);
    if (inv) {
        ACall g = *inv;
        g.before = std::make_shared<ACall>(f);
        C.push_back(g);
    }
}
static Calls mulCalls(int n, int l, bool isAlu, int maxCtl)
{
    Calls C;
    const u64 M = (1ULL << l) - 1;
    for (int s1 = 0; s1 + l <= n; ++s1)
        for (int s2 = 0; s2 + l <= n; ++s2) {
            Reg in{ s1, l }, out{ s2, l };
            if (in.mask() & out.mask())
                continue;
            VI rest = outside(n, in.mask() | out.mask());
            for (int k = 0; k <= std::min<int>(maxCtl, rest.size()); ++k)
                pick(rest, k, [&](const VI& cs) {
                    const u64 cm = maskOf(B(cs));
                    const std::string ct = k ? "," + bitsStr(cs) : "";
                    auto on = [=](u64 b) { return (b & cm) == cm; };
                    const Bits cb = B(cs);
                    if (isAlu)
                        for (u64 v = k ? 1 : 0; v <= M; ++v) {
                            ACall f = mk(fmt("%sMUL(%llu,%d,%d,%d", k ? "C" : "", v, s1, s2, l) + ct + ")", [=](Ctx& c) {
                                if (k)
                                    alu(c)->CMUL(v, s1, s2, l, cb);
                                else
                                    alu(c)->MUL(v, s1, s2, l);
                            }, [=](u64 b, cd&) {
                                if (!on(b))
                                    return b;
                                u64 p = in.get(b) * v;
                                return out.set(in.set(b, p & M), (p >> l) & M);
                            }, k ? out.mask() : 0, 0, k ? 0 : out.mask() | (v ? 0 : in.mask()));
                            ACall g = mk(fmt("%sDIV(%llu,%d,%d,%d", k ? "C" : "", v, s1, s2, l) + ct + ")", [=](Ctx& c) {
                                if (k)
                                    alu(c)->CDIV(v, s1, s2, l, cb);
                                else
                                    alu(c)->DIV(v, s1, s2, l);
                            }, [=](u64 b, cd&) {
                                if (!on(b))
                                    return b;
                                u64 p = (in.get(b) | (out.get(b) << l)) / v;
                                return out.set(in.set(b, p & M), (p >> l) & M);
                            });
                            withInverse(C, f, v ? &g : nullptr);
                        }
                    for (u64 N = 1; N <= M + 1; ++N)
                        for (u64 v = 0; v <= M; ++v) {
                            ACall f = mk(fmt("%sMULModNOut(%llu,%llu,%d,%d,%d", k ? "C" : "", v, N, s1, s2, l) + ct + ")", [=](Ctx& c) {
                                if (k)
                                    c.q->CMULModNOut(v, N, s1, s2, l, cb);
                                else
                                    c.q->MULModNOut(v, N, s1, s2, l);
                            }, [=](u64 b, cd&) { return on(b) ? out.set(b, (in.get(b) * v) % N) : b; }, out.mask());
                            ACall g = mk(fmt("%sIMULModNOut(%llu,%llu,%d,%d,%d", k ? "C" : "", v, N, s1, s2, l) + ct + ")", [=](Ctx& c) {
                                if (k)
                                    c.q->CIMULModNOut(v, N, s1, s2, l, cb);
                                else
                                    c.q->IMULModNOut(v, N, s1, s2, l);
                            }, [=](u64 b, cd&) { return out.set(b, 0); });
                            withInverse(C, f, &g);
                            if (isAlu) {
                                ACall p = mk(fmt("%sPOWModNOut(%llu,%llu,%d,%d,%d", k ? "C" : "", v, N, s1, s2, l) + ct + ")", [=](Ctx& c) {
                                    if (k)
                                        alu(c)->CPOWModNOut(v, N, s1, s2, l, cb);
                                    else
                                        alu(c)->POWModNOut(v, N, s1, s2, l);
                                }, [=](u64 b, cd&) {
                                    if (!on(b))
                                        return b;
                                    u64 r = 1;
                                    for (u64 e = in.get(b); e; --e)
                                        r *= v;
                                    return out.set(b, r % N);
                                }, out.mask());
                                C.push_back(p);
                            }
                        }
                });
        }
    return C;
}
static Calls adderCalls(int n)
{
    Calls C;
    // one-bit adders, all placements, with and without controls
    placements(n, 4, [&](const VI& p) {
        const int a = p[0], b = p[1], cin = p[2], co = p[3];
        VI rest = outside(n, (1ULL << a) | (1ULL << b) | (1ULL << cin) | (1ULL << co));
        for (int k = 0; k <= std::min<int>(1, rest.size()); ++k)
            pick(rest, k, [&](const VI& cs) {
                const u64 cm = maskOf(B(cs));
                const Bits cb = B(cs);
                const std::string ct = k ? bitsStr(cs) + "," : "";
                ACall f = mk(fmt("%sFullAdd(", k ? "C" : "") + ct + fmt("%d,%d,%d,%d)", a, b, cin, co), [=](Ctx& c) {
                    if (k)
                        c.q->CFullAdd(cb, a, b, cin, co);
                    else
                        c.q->FullAdd(a, b, cin, co);
                }, [=](u64 x, cd&) {
                    if ((x & cm) != cm)
                        return x;
                    u64 t = bit(x, a) + bit(x, b) + bit(x, cin);
                    return setb(setb(x, cin, t & 1), co, t >> 1);
                }, 1ULL << co);
                ACall g = mk(fmt("%sIFullAdd(", k ? "C" : "") + ct + fmt("%d,%d,%d,%d)", a, b, cin, co), [=](Ctx& c) {
                    if (k)
                        c.q->CIFullAdd(cb, a, b, cin, co);
                    else
                        c.q->IFullAdd(a, b, cin, co);
                }, [=](u64 x, cd&) {
                    if ((x & cm) != cm)
                        return x;
                    // the carry-in that gives this sum
                    u64 ci = bit(x, cin) ^ bit(x, a) ^ bit(x, b);
                    return setb(setb(x, cin, ci), co, 0);
                });
                withInverse(C, f, &g);
            });
    });
    return C;
}
static Calls adcCalls(int n, int l)
{
    Calls C;
    for (int rot = 0; rot < 4; ++rot) {
        // register orders: in1, in2, out, carry (and the control last)
        int base[4] = { 0, l, 2 * l, 3 * l };
        int i1, i2, o, cy;
        switch (rot) {
        case 0:
            i1 = base[0], i2 = base[1], o = base[2], cy = base[3];
            break;
        case 1:
            o = 0, i1 = l, i2 = 2 * l, cy = 3 * l;
            break;
        case 2:
            cy = 0, o = 1, i2 = 1 + l, i1 = 1 + 2 * l;
            break;
        default:
            i2 = 0, cy = l, o = l + 1, i1 = 2 * l + 1;
        }
        Reg r1{ i1, l }, r2{ i2, l }, ro{ o, l };
        const u64 M = (1ULL << l) - 1;
        VI rest = outside(n, r1.mask() | r2.mask() | ro.mask() | (1ULL << cy));
        for (int k = 0; k <= std::min<int>(1, rest.size()); ++k)
            pick(rest, k, [&](const VI& cs) {
                const u64 cm = maskOf(B(cs));
                const Bits cb = B(cs);
                const std::string ct = k ? bitsStr(cs) + "," : "";
                ACall f = mk(fmt("%sADC(", k ? "C" : "") + ct + fmt("%d,%d,%d,%d,%d)", i1, i2, o, l, cy), [=](Ctx& c) {
                    if (k)
                        c.q->CADC(cb, i1, i2, o, l, cy);
                    else
                        c.q->ADC(i1, i2, o, l, cy);
                }, [=](u64 x, cd&) {
                    if ((x & cm) != cm)
                        return x;
                    u64 t = r1.get(x) + r2.get(x) + bit(x, cy);
                    return setb(ro.set(x, t & M), cy, t > M);
                }, ro.mask());
                ACall g = mk(fmt("%sIADC(", k ? "C" : "") + ct + fmt("%d,%d,%d,%d,%d)", i1, i2, o, l, cy), [=](Ctx& c) {
                    if (k)
                        c.q->CIADC(cb, i1, i2, o, l, cy);
                    else
                        c.q->IADC(i1, i2, o, l, cy);
                }, [=](u64 x, cd&) {
                    if ((x & cm) != cm)
                        return x;
                    u64 t = ro.get(x) | (bit(x, cy) << l);
                    return setb(ro.set(x, 0), cy, t - r1.get(x) - r2.get(x));
                });
                withInverse(C, f, &g);
            });
    }
    return C;
}

static Suite suite(const std::string& name, const Stack& st, int n, Calls calls, int level)
{
    Suite s;
    s.name = name + "/" + st.name;
    s.env = st.env;
    auto C = std::make_shared<Calls>(calls);
    // start states per set of free qubits
    auto P = std::make_shared<std::map<u64, std::vector<Prep>>>();
    auto ofs = std::make_shared<std::vector<u64>>();
    u64 total = 0;
    for (auto& a : *C) {
        u64 z = a.zero | (a.before ? a.before->zero : 0);
        a.free = ((1ULL << n) - 1) & ~z;
        auto it = P->find(a.free);
        if (it == P->end())
            it = P->insert({ a.free, preps(outside(n, z), level) }).first;
        ofs->push_back(total);
        total += it->second.size();
    }
    s.count = total;
    const Stack* sp = &st;
    auto find = [=](u64 i) { return (size_t)(std::upper_bound(ofs->begin(), ofs->end(), i) - ofs->begin() - 1); };
    s.run = [=](u64 i) {
        size_t k = find(i);
        const ACall& a = (*C)[k];
        const Prep& p = P->at(a.free)[i - (*ofs)[k]];
        Ctx c;
        c.start(*sp, n);
        c.rng.script({}, (i % 3 == 0) ? 1e-4 : (i % 3 == 1) ? 0.9999 : 0.45);
        p.f(c);
        if (a.before)
            step(c, *a.before, a.before->name.c_str());
        step(c, a, a.name.c_str());
        transition(a.before ? 3 : 2);
        visited(c.r.hash());
    };
    s.describe = [=](u64 i) {
        size_t k = find(i);
        const ACall& a = (*C)[k];
        return P->at(a.free)[i - (*ofs)[k]].name + "; " + (a.before ? a.before->name + "; " : std::string()) + a.name;
    };
    return s;
}

// Exponents of a wider register: the power itself exceeds any machine word, its residue does not.
static const char* s_pow = "modular power";
static Suite powSuite(const Stack& st)
{
    Suite s;
    s.name = "pow12/" + st.name;
    s.env = st.env;
    const Stack* sp = &st;
    static const int bases[] = { 2, 3, 11, 34 };
    s.count = 2 * 4 * 64;
    s.describe = [=](u64 i) { return fmt("%sPOWModNOut(%d,35,0,6,6) on exponent %d", i & 1 ? "C" : "", bases[(i >> 1) & 3], (int)(i >> 3)); };
    s.run = [=](u64 i) {
        Ctx c;
        const bool ctl = i & 1;
        const int n = ctl ? 13 : 12, b = bases[(i >> 1) & 3];
        const u64 e = i >> 3;
        c.start(*sp, n, e);
        c.q->U(0, .9, .5, -.4); // exponents e and e^1
        c.r.g1(0, mU(.9, .5, -.4));
        if (ctl) {
            c.q->H(12);
            c.r.g1(12, mH());
        }
        auto alu = std::dynamic_pointer_cast<QAlu>(c.q);
        if (ctl)
            alu->CPOWModNOut(b, 35, 0, 6, 6, { 12 });
        else
            alu->POWModNOut(b, 35, 0, 6, 6);
        Ref o = c.r;
        std::fill(o.a.begin(), o.a.end(), cd(0));
        for (u64 x = 0; x < c.r.a.size(); ++x) {
            if (c.r.a[x] == cd(0))
                continue;
            u64 r = 1;
            for (u64 k = 0; k < (x & 63); ++k)
                r = r * b % 35;
            o.a[(ctl && !((x >> 12) & 1)) ? x : (x | (r << 6))] += c.r.a[x];
        }
        c.r = o;
        compareState(c.q, c.r, c.tol, s_pow);
        transition(1);
        visited(c.r.hash());
    };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C06", argc, argv);
    probsNow = true;
    const bool T = R.thorough();
    R.assumptions = { "integer arguments fit the register (or exceed it by one bit where the call reduces them)",
        "out-of-place calls start from a cleared output register, and inverse calls from a state in the image of the forward call" };
    for (const Stack& st : allStacks()) {
        if (st.clifford)
            continue;
        const bool slow = st.slow > 1;
        Rng g;
        const bool isAlu = (bool)std::dynamic_pointer_cast<QAlu>(st.make(1, 0, g));
        const int lv = T ? 2 : slow ? -1 : 1;
        R.explore(suite("plain3", st, 3, plainCalls(3, isAlu), T ? 2 : slow ? 0 : 2));
        R.explore(suite("plain4", st, 4, plainCalls(4, isAlu), lv));
        R.explore(suite("mul4", st, 4, mulCalls(4, 2, isAlu, 0), lv));
        R.explore(suite("mul5", st, 5, mulCalls(5, 2, isAlu, 1), lv));
        if (T || !slow)
            R.explore(suite("mul6", st, 6, mulCalls(6, 3, isAlu, 0), lv));
        if (T)
            R.explore(suite("mul7", st, 7, mulCalls(7, 3, isAlu, 1), slow ? 0 : 1));
        R.explore(suite("adders", st, 5, adderCalls(5), lv));
        R.explore(suite("adc1", st, 5, adcCalls(5, 1), lv));
        if (isAlu && (T || !slow))
            R.explore(powSuite(st));
        if (T || !slow)
            R.explore(suite("adc2", st, 8, adcCalls(8, 2), T ? 1 : 0));
    }
    return R.finish();
}
