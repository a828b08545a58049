// C05: registers that grow, shrink, split and merge.  Compose/Decompose/Dispose/Allocate/TryDecompose/TrySeparate against tensor
// products and Schmidt splits of the reference; the parts that leave and enter a register are themselves checked, at once and at
// the end of the history, and must be independent of each other.
#include "gates.hpp"
using namespace mc;

struct Part {
    QInterfacePtr q;
    Ref r;
    std::string what;
};
static std::vector<Part> parts; // registers that left, or were copied into, the main one

static const int NMAX = 4;

// largest squared Schmidt coefficient of the range against the rest
static double schmidt(const Ref& r, int start, int len)
{
    const u64 lo = (1ULL << start) - 1, P = 1ULL << len, R = 1ULL << (r.n - len);
    auto idx = [&](u64 x, u64 p) { return (x & lo) | (p << start) | ((x & ~lo) << len); };
    std::vector<cd> rho(P * P);
    for (u64 p = 0; p < P; ++p)
        for (u64 s = 0; s < P; ++s)
            for (u64 x = 0; x < R; ++x)
                rho[p * P + s] += r.a[idx(x, p)] * std::conj(r.a[idx(x, s)]);
    // power: rho^(2^k), trace normalised, gives the largest eigenvalue from the Rayleigh quotient
    std::vector<cd> m = rho;
    for (int k = 0; k < 12; ++k) {
        std::vector<cd> o(P * P);
        double tr = 0;
        for (u64 a = 0; a < P; ++a)
            for (u64 b = 0; b < P; ++b)
                for (u64 c = 0; c < P; ++c)
                    o[a * P + b] += m[a * P + c] * m[c * P + b];
        for (u64 a = 0; a < P; ++a)
            tr += o[a * P + a].real();
        for (auto& x : o)
            x /= tr;
        m.swap(o);
    }
    cd l = 0;
    for (u64 a = 0; a < P; ++a)
        for (u64 b = 0; b < P; ++b)
            l += m[a * P + b] * rho[b * P + a];
    return l.real();
}
static bool separable(const Ref& r, int start, int len)
{
    Ref a(0), b(0);
    return r.split(start, len, a, b);
}
static int basisState(const Ref& r, int start, int len)
{
    for (u64 v = 0; v < (1ULL << len); ++v)
        if (r.prob(((1ULL << len) - 1) << start, v << start) > 1 - 1e-9)
            return (int)v;
    return -1;
}

// a small register in a definite state, kind 0..: made with the same stack and the same generator
static Part side(Ctx& c, int len, int kind)
{
    Ctx k;
    k.st = c.st;
    k.r = Ref(len);
    Part p;
    p.q = c.st->make(len, 0, c.rng);
    p.r = Ref(len);
    auto g = [&](const M2& m, int t, std::function<void()> f) {
        f();
        p.r.g1(t, m);
    };
    if (kind == 1)
        g(mX(), len - 1, [&] { p.q->X(len - 1); });
    if (kind >= 2) {
        if (c.st->clifford)
            g(mul(mP(PI / 2), mH()), 0, [&] { p.q->H(0); p.q->S(0); });
        else
            g(mU(1.2, .7, -.3), 0, [&] { p.q->U(0, 1.2f, .7f, -.3f); });
        if (len > 1) {
            if (kind == 2) { // entangled
                p.q->CNOT(0, 1);
                p.r.ctl(1, 1, 1, mX());
            } else // product, buffered bases
                g(mH(), 1, [&] { p.q->H(1); });
        }
    }
    return p;
}
static void keep(const Part& p, const char* what)
{
    parts.push_back(p);
    parts.back().what = what;
}
static void poke(QInterfacePtr q, Ref& r)
{
    q->H(0);
    q->S(0);
    r.g1(0, mul(mP(PI / 2), mH()));
    if (r.n > 1) {
        q->CNOT(0, r.n - 1);
        r.ctl(1, 1, r.n - 1, mX());
    }
}
static void checkAll(Ctx& c, bool final)
{
    compareState(c.q, c.r, c.tol, "register");
    for (auto& p : parts)
        compareState(p.q, p.r, c.tol, p.what.c_str());
    if (!final)
        return;
    // independence: work on every part in turn, then look at all of them again
    for (size_t i = 0; i < parts.size(); ++i) {
        poke(parts[i].q, parts[i].r);
        compareState(c.q, c.r, c.tol, "register, after a gate on a separate one");
    }
    poke(c.q, c.r);
    compareState(c.q, c.r, c.tol, "register, after a further gate");
    for (auto& p : parts)
        compareState(p.q, p.r, c.tol, (p.what + ", after gates on the others").c_str());
}

static Alphabet structural(int n0, const Stack& st, bool brief)
{
    Alphabet A;
    auto add = [&](const std::string& nm, std::function<void(Ctx&)> f) { A.push_back({ nm, f }); };
    const bool tn = st.name.substr(0, 6) == "tensor";
    if (!tn) {
        for (int len = 1; len <= 2; ++len)
            for (int kind = brief ? 2 : 1; kind <= (len == 2 && !brief ? 3 : 2); ++kind) {
                for (int start = 0; start <= n0; ++start) {
                    add(fmt("Compose(%dq#%d,%d)", len, kind, start), [=](Ctx& c) {
                        if (c.r.n + len > NMAX || start > c.r.n)
                            return;
                        Part p = side(c, len, kind);
                        bitLenInt o = c.q->Compose(p.q, start);
                        MC_CHECK(o == start, "Compose at %d returned offset %d", start, (int)o);
                        c.r.compose(p.r, start);
                        keep(p, "the register that was copied in");
                    });
                }
                add(fmt("Compose(%dq#%d)", len, kind), [=](Ctx& c) {
                    if (c.r.n + len > NMAX)
                        return;
                    Part p = side(c, len, kind);
                    bitLenInt o = c.q->Compose(p.q);
                    MC_CHECK(o == c.r.n, "Compose at the end of %d qubits returned offset %d", c.r.n, (int)o);
                    c.r.compose(p.r, c.r.n);
                    keep(p, "the register that was copied in");
                });
                add(fmt("ComposeNoClone(%dq#%d)", len, kind), [=](Ctx& c) {
                    if (c.r.n + len > NMAX)
                        return;
                    Part p = side(c, len, kind);
                    bitLenInt o = c.q->ComposeNoClone(p.q);
                    MC_CHECK(o == c.r.n, "ComposeNoClone at the end of %d qubits returned offset %d", c.r.n, (int)o);
                    c.r.compose(p.r, c.r.n);
                });
            }
        if (!brief)
            add("Compose({1q,2q})", [=](Ctx& c) {
                if (c.r.n + 3 > NMAX + 2)
                    return;
                Part a = side(c, 1, 2), b = side(c, 2, 2);
                const int n = c.r.n;
                auto m = c.q->Compose(std::vector<QInterfacePtr>{ a.q, b.q });
                MC_CHECK(m.size() == 2 && m[a.q] == n && m[b.q] == n + 1, "Compose(vector) offsets %d and %d, expected %d and %d", (int)m[a.q],
                    (int)m[b.q], n, n + 1);
                c.r.compose(a.r, n);
                c.r.compose(b.r, n + 1);
                keep(a, "the first register that was copied in");
                keep(b, "the second register that was copied in");
            });
    }
    for (int len = 1; len <= 2; ++len) {
        for (int start = 0; start <= n0; ++start)
            add(fmt("Allocate(%d,%d)", start, len), [=](Ctx& c) {
                if (c.r.n + len > NMAX || start > c.r.n)
                    return;
                bitLenInt o = c.q->Allocate(start, len);
                MC_CHECK(o == start, "Allocate at %d returned offset %d", start, (int)o);
                c.r.compose(Ref(len), start);
            });
        add(fmt("Allocate(%d)", len), [=](Ctx& c) {
            if (c.r.n + len > NMAX)
                return;
            bitLenInt o = c.q->Allocate(len);
            MC_CHECK(o == c.r.n, "Allocate at the end of %d qubits returned offset %d", c.r.n, (int)o);
            c.r.compose(Ref(len), c.r.n);
        });
    }
    if (tn)
        return A;
    for (int len = 1; len < n0 || len == 1; ++len)
        for (int start = 0; start + len <= n0; ++start) {
            auto ok = [=](Ctx& c) { return start + len <= c.r.n && len < c.r.n && separable(c.r, start, len); };
            add(fmt("Decompose(%d,new %d)", start, len), [=](Ctx& c) {
                if (!ok(c))
                    return;
                Part p;
                p.r = Ref(len);
                p.q = c.st->make(len, 0, c.rng);
                Ref rest(0);
                c.r.split(start, len, p.r, rest);
                c.q->Decompose(start, p.q);
                c.r = rest;
                keep(p, "the register that was split off");
            });
            add(fmt("Decompose(%d,%d)", start, len), [=](Ctx& c) {
                if (!ok(c))
                    return;
                Part p;
                p.r = Ref(len);
                Ref rest(0);
                c.r.split(start, len, p.r, rest);
                p.q = c.q->Decompose(start, len);
                c.r = rest;
                keep(p, "the register that was split off");
            });
            add(fmt("Decompose(%d,%d) and Compose back", start, len), [=](Ctx& c) {
                if (!ok(c))
                    return;
                QInterfacePtr p = c.q->Decompose(start, len);
                c.q->Compose(p, start);
            });
            add(fmt("Dispose(%d,%d)", start, len), [=](Ctx& c) {
                if (!ok(c))
                    return;
                Ref part(0), rest(0);
                c.r.split(start, len, part, rest);
                c.q->Dispose(start, len);
                c.r = rest;
            });
            add(fmt("Dispose(%d,%d,value)", start, len), [=](Ctx& c) {
                if (start + len > c.r.n || len >= c.r.n)
                    return;
                int v = basisState(c.r, start, len);
                if (v < 0)
                    return;
                Ref part(0), rest(0);
                c.r.split(start, len, part, rest);
                c.q->Dispose(start, len, v);
                c.r = rest;
            });
            // (the default tolerance is of the order of single-precision rounding errors, so that only the tolerant call must succeed)
            for (int tolerant = 0; tolerant < 2; ++tolerant)
            add(fmt("TryDecompose(%d,%d%s)", start, len, tolerant ? ",1e-3" : ""), [=](Ctx& c) {
                if (start + len > c.r.n || len >= c.r.n)
                    return;
                const double l = schmidt(c.r, start, len);
                Part p;
                p.r = Ref(len);
                p.q = c.st->make(len, 0, c.rng);
                if (l < 1 - 1e-9 && l > 0.97)
                    return;
                bool did = tolerant ? c.q->TryDecompose(start, p.q, 1e-3f) : c.q->TryDecompose(start, p.q);
                if (l > 0.97 && !tolerant && !did)
                    return;
                if (l > 0.97) {
                    MC_CHECK(did, "TryDecompose(%d,%d) of a product state says it is not separable", start, len);
                    Ref rest(0);
                    c.r.split(start, len, p.r, rest);
                    c.r = rest;
                    keep(p, "the register that was split off");
                } else
                    MC_CHECK(!did, "TryDecompose(%d,%d) of an entangled state (Schmidt weight %.4f) says it separated", start, len, l);
            });
        }
    for (int t = 0; t < n0; ++t)
        add(fmt("TrySeparate(%d)", t), [=](Ctx& c) {
            if (t >= c.r.n)
                return;
            c.q->TrySeparate(t);
        });
    placements(n0, 2, [&](const std::vector<int>& p) {
        int a = p[0], b = p[1];
        add(fmt("TrySeparate(%d,%d)", a, b), [=](Ctx& c) {
            if (a < c.r.n && b < c.r.n)
                c.q->TrySeparate(a, b);
        });
        if (!brief)
            add(fmt("TrySeparate({%d,%d})", a, b), [=](Ctx& c) {
                if (a < c.r.n && b < c.r.n && c.r.n > 2)
                    c.q->TrySeparate(Bits{ (bitLenInt)a, (bitLenInt)b }, 1e-5f);
            });
    });
    if (!brief)
        for (int a = 0; a < n0; ++a)
            add(fmt("TrySeparate({%d})", a), [=](Ctx& c) {
                if (a < c.r.n && c.r.n > 1)
                    c.q->TrySeparate(Bits{ (bitLenInt)a }, 1e-5f);
            });
    return A;
}
static Alphabet gates(int n0, const Stack& st)
{
    Alphabet A;
    auto add = [&](const std::string& nm, std::function<void(Ctx&)> f) { A.push_back({ nm, f }); };
    auto one = [&](const std::string& nm, int t, const M2& g, std::function<void(QInterface&)> f) {
        add(nm + fmt("(%d)", t), [=](Ctx& c) {
            if (t >= c.r.n)
                return;
            f(*c.q);
            c.r.g1(t, g);
        });
    };
    auto ctl = [&](const std::string& nm, int x, int t, bool anti, const M2& g, std::function<void(QInterface&)> f) {
        add(nm + fmt("(%d,%d)", x, t), [=](Ctx& c) {
            if (t >= c.r.n || x >= c.r.n)
                return;
            f(*c.q);
            c.r.ctl(1ULL << x, anti ? 0 : 1ULL << x, t, g);
        });
    };
    for (int t = 0; t < n0; ++t) {
        one("H", t, mH(), [=](QInterface& q) { q.H(t); });
        if (!st.clifford)
            one("U", t, mU(.9, .5, -.4), [=](QInterface& q) { q.U(t, .9f, .5f, -.4f); });
        else
            one("S", t, mP(PI / 2), [=](QInterface& q) { q.S(t); });
    }
    for (int a = 0; a < n0; ++a)
        for (int b = 0; b < n0; ++b)
            if (a != b) {
                ctl("CNOT", a, b, false, mX(), [=](QInterface& q) { q.CNOT(a, b); });
                if (a < b) {
                    ctl("CZ", a, b, false, mZ(), [=](QInterface& q) { q.CZ(a, b); });
                    add(fmt("Swap(%d,%d)", a, b), [=](Ctx& c) {
                        if (b >= c.r.n)
                            return;
                        c.q->Swap(a, b);
                        apply4(c.r, a, b, mSwapLike(0, 1));
                    });
                }
            }
    for (int t = 0; t < n0; ++t)
        add(fmt("ForceM(%d)", t), [=](Ctx& c) {
            if (t >= c.r.n)
                return;
            bool v = likely(c.r, t);
            c.q->ForceM(t, v, true, true);
            c.r.project(1ULL << t, v ? 1ULL << t : 0);
        });
    return A;
}

static Alphabet withClear(Alphabet p)
{
    p.insert(p.begin(), Op{ "", [](Ctx&) { parts.clear(); } });
    return p;
}

// states of the near-Clifford layer that hold their magic in auxiliary qubits, live or already measured out
static std::vector<Alphabet> gadgetMenu()
{
    typedef std::function<void(Ctx&)> F;
    auto h = [](int t) -> F { return [=](Ctx& c) { c.q->H(t); c.r.g1(t, mH()); }; };
    auto x = [](int t) -> F { return [=](Ctx& c) { c.q->X(t); c.r.g1(t, mX()); }; };
    auto tt = [](int t) -> F { return [=](Ctx& c) { c.q->T(t); c.r.g1(t, mP(PI / 4)); }; };
    auto rz = [](int t) -> F { return [=](Ctx& c) { c.q->RZ(.7f, t); c.r.g1(t, mRZ(.7)); }; };
    auto cx = [](int a, int b) -> F { return [=](Ctx& c) { c.q->CNOT(a, b); c.r.ctl(1ULL << a, 1ULL << a, b, mX()); }; };
    auto fm = [](int t) -> F { return [=](Ctx& c) {
        bool v = likely(c.r, t);
        c.q->ForceM(t, v, true, true);
        c.r.project(1ULL << t, v ? 1ULL << t : 0);
    }; };
    std::vector<std::pair<std::string, std::vector<F>>> v{
        { "hth0", { h(0), tt(0), h(0) } },
        { "hth2 x0", { h(2), tt(2), h(2), x(0) } },
        { "bell01 t0 h0", { h(0), cx(0, 1), tt(0), h(0) } },
        { "bell12 t1 h1", { h(1), cx(1, 2), tt(1), h(1) } },
        { "bell12 t1 h1 h0 t0 h0", { h(1), cx(1, 2), tt(1), h(1), h(0), tt(0), h(0) } },
        { "bell02 rz0 h0 t0", { h(0), cx(0, 2), rz(0), h(0), tt(0) } },
        { "bell01 t0 h0 t0 h0", { h(0), cx(0, 1), tt(0), h(0), tt(0), h(0) } },
        { "bell01 t0 h0 m0", { h(0), cx(0, 1), tt(0), h(0), fm(0) } },
        { "bell01 t0 h0 m1", { h(0), cx(0, 1), tt(0), h(0), fm(1) } },
        { "bell01 t0 h0 h2 t2 h2 m0", { h(0), cx(0, 1), tt(0), h(0), h(2), tt(2), h(2), fm(0) } },
        { "bell12 t1 h1 m2 t1 h0", { h(1), cx(1, 2), tt(1), h(1), fm(2), tt(1), h(0) } },
        { "ghz t0 h0 t1 h1", { h(0), cx(0, 1), cx(1, 2), tt(0), h(0), tt(1), h(1) } },
    };
    std::vector<Alphabet> out;
    for (auto& e : v) {
        auto fs = e.second;
        out.push_back({ { "prep " + e.first, [=](Ctx& c) {
                             for (auto& f : fs)
                                 f(c);
                         } } });
    }
    return out;
}

int main(int argc, char** argv)
{
    Runner R("C05", argc, argv);
    probsNow = true;
    const bool T = R.thorough();
    R.assumptions = { "registers of 1 to 4 qubits (6 after composing a list)",
        "splits are asked for only where the reference state is a product; TryDecompose is also asked where the largest squared Schmidt "
        "coefficient is below 0.97" };
    auto post = [](Ctx& c) { checkAll(c, true); };
    for (const Stack& st : allStacks()) {
        const bool slow = st.slow > 1;
        auto menu = [&](int n, bool light) {
            std::vector<Alphabet> m;
            for (auto& p : prepMenu(n, st.clifford, light))
                m.push_back(withClear(p));
            return m;
        };
        std::vector<Alphabet> p1;
        for (int k = 0; k < 3; ++k)
            p1.push_back(withClear({ { fmt("prep1 %d", k), [=](Ctx& c) {
                                          if (k == 1)
                                              c.q->X(0), c.r.g1(0, mX());
                                          if (k == 2)
                                              c.q->H(0), c.r.g1(0, mH());
                                      } } }));
        R.explore(prepOpSuite("one1/" + st.name, st, 1, p1, structural(1, st, false), post));
        R.explore(prepOpSuite("one2/" + st.name, st, 2, menu(2, false), structural(2, st, false), post));
        R.explore(prepOpSuite("one3/" + st.name, st, 3, menu(3, !T), structural(3, st, false), post));
        if (!st.clifford) {
            std::vector<Alphabet> m;
            for (auto& p : gadgetMenu())
                m.push_back(withClear(p));
            Alphabet S = structural(3, st, T), S2 = structural(3, st, true);
            R.explore(seqSuite("gadget/" + st.name, st, 3, m, T ? S : S2, st.name.find("stabhybrid") != std::string::npos ? 2 : 1, post));
        }
        Alphabet H = structural(3, st, true), G = gates(4, st);
        H.insert(H.end(), G.begin(), G.end());
        std::vector<Alphabet> few;
        auto all = menu(3, true);
        for (size_t i = 0; i < all.size(); ++i)
            if (T || i % 13 == 5)
                few.push_back(all[i]);
        R.explore(seqSuite("hist/" + st.name, st, 3, few, H, T ? (slow ? 2 : 3) : slow ? 1 : 2, post));
        if (T && !slow)
            R.explore(seqSuite("deep/" + st.name, st, 2, { withClear({ { "start", [](Ctx&) {} } }) }, H, 4, post));
        else if (!slow)
            R.explore(seqSuite("deep/" + st.name, st, 2, { withClear({ { "start", [](Ctx&) {} } }) }, H, 3, post));
    }
    return R.finish();
}
