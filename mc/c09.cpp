// C09: circuits.  A QCircuit means the product of the gates given to it: every sequence of gates is given to a circuit, with and
// without the collapsing optimiser, and what the circuit does (run, inverse, clone, serialization, light cone, post-selection,
// combination with other circuits) is compared with the gates' product on a maximally entangled state, which determines it.
#include "gates.hpp"
#include "qcircuit.hpp"
#include <sstream>
using namespace mc;

static const int N = 3;

struct Gate { // one gate, as a value
    std::string name;
    int t = 0;
    std::vector<std::pair<u64, M2>> pay; // by permutation of `ctrl`, lowest index first
    std::vector<int> ctrl;
    bool swap = false; // QCircuit::Swap
    bool swapGate = false; // the gate object
    QCircuitGatePtr make() const
    {
        if (swapGate)
            return std::make_shared<QCircuitGate>(t, ctrl[0]);
        std::set<bitLenInt> cs(ctrl.begin(), ctrl.end());
        std::map<bitCapInt, std::shared_ptr<complex>> p;
        for (auto& x : pay) {
            complex m[4];
            for (int i = 0; i < 4; ++i)
                m[i] = cc(x.second.m[i]);
            if (ctrl.empty())
                return std::make_shared<QCircuitGate>(t, m);
            if (pay.size() == 1)
                return std::make_shared<QCircuitGate>(t, m, cs, (bitCapInt)x.first);
            p[x.first] = std::shared_ptr<complex>(new complex[4], std::default_delete<complex[]>());
            std::copy(m, m + 4, p[x.first].get());
        }
        return std::make_shared<QCircuitGate>(t, p, cs);
    }
    void append(QCircuitPtr c) const
    {
        if (swap)
            c->Swap(t, ctrl[0]);
        else
            c->AppendGate(make());
    }
    void ref(Ref& r, bool inverse = false) const
    {
        if (swap || swapGate) {
            apply4(r, t, ctrl[0], mSwapLike(0, 1));
            return;
        }
        u64 cm = 0;
        for (int c : ctrl)
            cm |= 1ULL << c;
        for (auto& x : pay) {
            u64 v = 0;
            for (size_t i = 0; i < ctrl.size(); ++i)
                if ((x.first >> i) & 1)
                    v |= 1ULL << ctrl[i];
            r.ctl(cm, v, t, inverse ? adj(x.second) : x.second);
        }
    }
    int top() const
    {
        int m = t;
        for (int c : ctrl)
            m = std::max(m, c);
        return m + 1;
    }
    bool involves(int q) const { return t == q || std::count(ctrl.begin(), ctrl.end(), q); }
};
typedef std::vector<Gate> Gates;

static Gate g1(const std::string& nm, int t, const M2& m)
{
    Gate g;
    g.name = fmt("%s(%d)", nm.c_str(), t);
    g.t = t;
    g.pay = { { 0, m } };
    return g;
}
static Gate gc(const std::string& nm, int t, std::vector<int> c, std::vector<std::pair<u64, M2>> p)
{
    Gate g;
    std::sort(c.begin(), c.end());
    g.name = fmt("%s(%s->%d", nm.c_str(), bitsStr(c).c_str(), t);
    if (p.size() == 1)
        g.name += fmt(",perm=%d", (int)p[0].first);
    g.name += ")";
    g.t = t;
    g.ctrl = c;
    g.pay = p;
    return g;
}
static Gate gs(int a, int b, bool obj)
{
    Gate g;
    g.name = fmt("%s(%d,%d)", obj ? "SwapGate" : "Swap", a, b);
    g.t = a;
    g.ctrl = { b };
    (obj ? g.swapGate : g.swap) = true;
    return g;
}

enum Size { TINY, SMALL, MEDIUM, FULL };
static Gates alphabet(Size z, int n = N)
{
    const M2 H = mH(), X = mX(), Y = mY(), Z = mZ(), S = mP(PI / 2), IS = mP(-PI / 2), T = mP(PI / 4), U = mU(.7, .4, -1.1), ZI = scale(Z, -1),
             PP = { { std::polar(1.0, .3), 0, 0, std::polar(1.0, -.5) } }, II = { { 0, cd(0, 1), 1, 0 } };
    Gates A;
    const bool f = z == FULL, m = z >= MEDIUM, s = z >= SMALL;
    for (int t = 0; t < n; ++t) {
        A.push_back(g1("H", t, H));
        if (t == 0 || s)
            A.push_back(g1("X", t, X));
        if (s && (m || t != 1))
            A.push_back(g1("S", t, S));
        if (m)
            A.push_back(g1("U", t, U));
        if (f) {
            A.push_back(g1("Y", t, Y));
            A.push_back(g1("Z", t, Z));
            A.push_back(g1("T", t, T));
        }
    }
    placements(n, 2, [&](const std::vector<int>& p) {
        const int c = p[0], t = p[1];
        A.push_back(gc("CX", t, { c }, { { 1, X } }));
        if (m || (s && t > c))
            A.push_back(gc("CX", t, { c }, { { 0, X } }));
        if (s && (m || c < t))
            A.push_back(gc("CZ", t, { c }, { { 1, Z } }));
        if (m) {
            A.push_back(gc("CP", t, { c }, { { 0, PP } }));
            A.push_back(gc("UC[H,X]", t, { c }, { { 0, H }, { 1, X } }));
        }
        if (f) {
            A.push_back(gc("CH", t, { c }, { { 1, H } }));
            A.push_back(gc("CH", t, { c }, { { 0, H } }));
            A.push_back(gc("CU", t, { c }, { { 1, U } }));
            A.push_back(gc("CII", t, { c }, { { 1, II } }));
            A.push_back(gc("CIS", t, { c }, { { 1, IS } }));
            A.push_back(gc("UC[Z,-Z]", t, { c }, { { 0, Z }, { 1, ZI } }));
            A.push_back(gc("UC[S,X]", t, { c }, { { 0, S }, { 1, X } }));
            A.push_back(gc("UC[Y,1]", t, { c }, { { 0, Y }, { 1, M2{ { 1, 0, 0, 1 } } } }));
        }
    });
    if (n > 2)
        for (int t = 0; t < n; ++t) {
            std::vector<int> c;
            for (int k = 0; k < n; ++k)
                if (k != t && c.size() < 2)
                    c.push_back(k);
            for (u64 p = 0; p < 4; ++p) {
                if (m || (s && p == 2))
                    A.push_back(gc("CCX", t, c, { { p, X } }));
                if (f || (m && p == 1))
                    A.push_back(gc("CCP", t, c, { { p, PP } }));
                if (f) {
                    A.push_back(gc("CCU", t, c, { { p, U } }));
                    A.push_back(gc("CCZ", t, c, { { p, Z } }));
                }
            }
            if (m)
                A.push_back(gc("UC[X,Z,-,H]", t, c, { { 0, X }, { 1, Z }, { 3, H } }));
            if (f) {
                A.push_back(gc("UC[X,X,II,Y]", t, c, { { 0, X }, { 1, X }, { 2, II }, { 3, Y } }));
                A.push_back(gc("UC[P,P,-,Z]", t, c, { { 0, PP }, { 1, PP }, { 3, Z } }));
            }
        }
    for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b)
            if (m || (s && a == 0 && b == n - 1)) {
                A.push_back(gs(a, b, false));
                A.push_back(gs(b, a, true));
            }
    return A;
}
// the gates a Swap detector cares about
static Gates cnots()
{
    Gates A;
    placements(N, 2, [&](const std::vector<int>& p) {
        A.push_back(gc("CX", p[1], { p[0] }, { { 1, mX() } }));
        if (p[0] + p[1] == 1)
            A.push_back(gc("CX", p[1], { p[0] }, { { 0, mX() } }));
    });
    return A;
}

static const struct Mode {
    const char* name;
    bool collapse, clifford;
} MODES[] = { { "collapsed", true, false }, { "near-Clifford", true, true }, { "raw", false, false } };

// |k>|k> over n + n qubits: what a circuit does to this state determines it
static Ref choi(int n)
{
    Ref r(2 * n);
    r.a[0] = 0;
    for (u64 k = 0; k < (1ULL << n); ++k)
        r.a[k | (k << n)] = 1 / std::sqrt((double)(1ULL << n));
    return r;
}
static void load(QInterfacePtr q, const Ref& r)
{
    std::vector<complex> v(r.a.size());
    for (size_t i = 0; i < v.size(); ++i)
        v[i] = cc(r.a[i]);
    q->SetQuantumState(v.data());
}
struct Bench {
    Ctx c;
    int n;
    Bench(const Stack& st, int nq = N)
        : n(nq)
    {
        c.start(st, 2 * n);
    }
    void check(QCircuitPtr k, const std::function<void(Ref&)>& f, const char* what)
    {
        Ref r = choi(n);
        load(c.q, r);
        f(r);
        k->Run(c.q);
        compareState(c.q, r, c.tol, what);
    }
};

static QCircuitPtr circ(const Mode& m) { return std::make_shared<QCircuit>(m.collapse, m.clifford); }

static Suite seqs(const std::string& name, const Stack& st, Size z, const Gates& A0, int depth, const Mode& mode,
    const std::function<void(Bench&, QCircuitPtr, const Gates&)>& post, int minLen = -1)
{
    (void)z;
    Suite s;
    s.name = name + std::to_string(A0.size()) + "/" + st.name + "/" + mode.name + "/" + std::to_string(depth);
    s.env = st.env;
    auto A = std::make_shared<Gates>(A0);
    u64 k = 1;
    for (int d = 0; d < depth; ++d)
        k *= A->size();
    (void)minLen;
    s.count = k;
    const Stack* sp = &st;
    const Mode* mp = &mode;
    auto dec = [=](u64 i) {
        Gates g;
        for (int d = 0; d < depth; ++d, i /= A->size())
            g.push_back((*A)[i % A->size()]);
        return g;
    };
    s.run = [=](u64 i) {
        Gates g = dec(i);
        static thread_local std::unique_ptr<Bench> B;
        static thread_local const Stack* bs = nullptr;
        if (!B || bs != sp || !sp->env.empty()) {
            B.reset(new Bench(*sp));
            bs = sp;
        }
        QCircuitPtr c = circ(*mp);
        for (auto& x : g)
            x.append(c);
        try {
            post(*B, c, g);
        } catch (...) {
            B.reset();
            throw;
        }
        transition(depth);
        Ref r = choi(N);
        for (auto& x : g)
            x.ref(r);
        visited(r.hash());
    };
    s.describe = [=](u64 i) {
        std::string d;
        for (auto& x : dec(i))
            d += (d.empty() ? "" : "; ") + x.name;
        return d;
    };
    return s;
}
static void refAll(Ref& r, const Gates& g)
{
    for (auto& x : g)
        x.ref(r);
}

// the circuit does what its gates say
static void runs(Bench& b, QCircuitPtr c, const Gates& g)
{
    b.check(c, [&](Ref& r) { refAll(r, g); }, "circuit");
}
// everything else one can ask of it
static void everything(Bench& b, QCircuitPtr c, const Gates& g)
{
    auto fwd = [&](Ref& r) { refAll(r, g); };
    // what is derived from the circuit leaves it alone
    QCircuitPtr k = c->Clone(), inv = c->Inverse();
    b.check(k, fwd, "clone");
    b.check(inv, [&](Ref& r) {
        for (size_t i = g.size(); i-- > 0;)
            g[i].ref(r, true);
    }, "inverse");
    MC_CHECK(k->GetQubitCount() == c->GetQubitCount() && inv->GetQubitCount() == c->GetQubitCount(), "%d qubits, %d in the clone, %d in the inverse",
        (int)c->GetQubitCount(), (int)k->GetQubitCount(), (int)inv->GetQubitCount());
    {
        Ref r = choi(b.n);
        load(b.c.q, r);
        c->Run(b.c.q);
        inv->Run(b.c.q);
        compareState(b.c.q, r, b.c.tol, "circuit and then its inverse");
    }
    {
        std::stringstream ss;
        ss << c;
        QCircuitPtr d = std::make_shared<QCircuit>();
        ss >> d;
        MC_CHECK(!ss.fail(), "a serialized circuit cannot be read: %s", ss.str().c_str());
        MC_CHECK(d->GetQubitCount() == c->GetQubitCount(), "%d qubits became %d on reading back", (int)c->GetQubitCount(), (int)d->GetQubitCount());
        b.check(d, fwd, "circuit read back from its serialization");
        // and into a circuit which is not empty
        std::stringstream s2;
        s2 << c;
        s2 >> k;
        b.check(k, fwd, "circuit read over another");
    }
    // a clone goes its own way
    const Gate more = gc("CX", 0, { 1 }, { { 1, mX() } }), more2 = g1("H", 1, mH());
    k = c->Clone();
    more.append(k);
    more2.append(k);
    b.check(c, fwd, "circuit whose clone went on");
    b.check(k, [&](Ref& r) {
        refAll(r, g);
        more.ref(r);
        more2.ref(r);
    }, "clone that went on");
    // past light cones: the reduced state of the wanted qubits
    for (u64 m = 1; m < (1ULL << b.n) - 1; ++m) {
        std::set<bitLenInt> qs;
        for (int t = 0; t < b.n; ++t)
            if ((m >> t) & 1)
                qs.insert(t);
        QCircuitPtr lc = c->PastLightCone(qs);
        Ref r(b.n), o = choi(b.n);
        load(b.c.q, o);
        lc->Run(b.c.q);
        std::vector<cd> got = implState(b.c.q);
        refAll(o, g);
        // reduced density matrix of the qubits m and the references
        const u64 all = (1ULL << b.n) - 1, rest = all & ~m;
        double worst = 0;
        for (u64 x = 0; x < got.size(); ++x)
            if (!(x & rest))
                for (u64 y = 0; y <= x; ++y)
                    if (!(y & rest)) {
                        // trace out the rest, and the references of nothing
                        cd dg = 0, dr = 0;
                        for (u64 z = rest;; z = (z - 1) & rest) {
                            dg += got[x | z] * std::conj(got[y | z]);
                            dr += o.a[x | z] * std::conj(o.a[y | z]);
                            if (!z)
                                break;
                        }
                        worst = std::max(worst, std::abs(dg - dr));
                    }
        MC_CHECK(worst <= b.c.tol, "past light cone of qubits %llu: their state differs by %.4g", (unsigned long long)m, worst);
        for (auto& x : g)
            if (m >> x.t & 1)
                MC_CHECK(qs.count(x.t), "a light cone forgot one of its qubits");
    }
    b.check(c, fwd, "circuit whose light cones were taken");
    // qubits never touched other than in phase
    for (int t = 0; t < b.n; ++t) {
        bool np = false, any = false;
        for (auto& x : g) {
            any = any || x.involves(t);
            if ((x.swap || x.swapGate) && x.involves(t))
                np = true;
            for (auto& p : x.pay)
                np = np || (x.t == t && std::abs(p.second.m[1]) + std::abs(p.second.m[2]) > 1e-6);
        }
        // (the optimiser may know better, but never less)
        MC_CHECK(np || !c->IsNonPhaseTarget(t), "IsNonPhaseTarget(%d) of a circuit which only has phases there", t);
        MC_CHECK(any || !c->IsAnyInvolved({ (bitLenInt)t }), "IsAnyInvolved({%d}) of a circuit which never touches it", t);
        // when it is not a target, then the circuit never changes that qubit's value
        if (!c->IsNonPhaseTarget(t)) {
            for (int v = 0; v < 2; ++v) {
                QCircuitPtr d = c->Clone();
                d->DeletePhaseTarget(t, v);
                Ref r = choi(b.n);
                r.project(1ULL << t, v ? 1ULL << t : 0);
                load(b.c.q, r);
                refAll(r, g);
                d->Run(b.c.q);
                compareState(b.c.q, r, b.c.tol, fmt("DeletePhaseTarget(%d,%d)", t, v).c_str());
                MC_CHECK(!d->IsAnyInvolved({ (bitLenInt)t }), "DeletePhaseTarget(%d,%d) left the qubit involved", t, v);
            }
        }
        if (!c->IsAnyInvolved({ (bitLenInt)t })) {
            Ref r = choi(b.n), o = choi(b.n);
            refAll(r, g);
            // the gates' product leaves that qubit alone
            double p = 0;
            for (u64 x = 0; x < r.a.size(); ++x)
                if (((x >> t) & 1) == ((x >> (t + b.n)) & 1))
                    p += std::norm(r.a[x]);
            MC_CHECK(p > 1 - 1e-6, "IsAnyInvolved({%d}) is false for a circuit which acts there", t);
        }
    }
    MC_CHECK(c->GetQubitCount() <= b.n, "circuit of %d qubits", (int)c->GetQubitCount());
}
// a prefix and a suffix, given to two circuits and joined; neither the suffix nor a second use of it is disturbed
static void joined(Bench& b, QCircuitPtr, const Gates& g)
{
    for (size_t cut = 0; cut <= g.size(); ++cut) {
        for (int how = 0; how < 4; ++how) {
            const Mode &ma = MODES[how & 1 ? 2 : 0], &mb = MODES[cut % 3];
            QCircuitPtr x = circ(ma), y = circ(mb);
            Gates ga(g.begin(), g.begin() + cut), gb(g.begin() + cut, g.end());
            for (auto& k : ga)
                k.append(x);
            for (auto& k : gb)
                k.append(y);
            auto join = [&] {
                if (how & 2)
                    x->Append(y);
                else
                    x->Combine(y);
            };
            join();
            b.check(x, [&](Ref& r) { refAll(r, g); }, how & 2 ? "circuit after Append" : "circuit after Combine");
            b.check(y, [&](Ref& r) { refAll(r, gb); }, how & 2 ? "circuit given to Append" : "circuit given to Combine");
            join();
            b.check(x, [&](Ref& r) {
                refAll(r, g);
                refAll(r, gb);
            }, "circuit joined twice with the same one");
            for (auto& k : ga)
                k.append(x);
            b.check(x, [&](Ref& r) {
                refAll(r, g);
                refAll(r, gb);
                refAll(r, ga);
            }, "circuit continued after joining");
            b.check(y, [&](Ref& r) { refAll(r, gb); }, "circuit given to another, which went on");
        }
    }
}
// gate objects are values: the same object may be given again, and to other circuits
static Suite reuse(const Stack& st, const Gates& A0, const Mode& mode)
{
    Suite s;
    s.name = std::string("same objects/") + mode.name;
    auto A = std::make_shared<Gates>(A0);
    const u64 k = A->size();
    // positions of two objects a, b
    static const std::vector<std::vector<int>> W = { { 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 0, 1 }, { 0, 1, 0, 1 }, { 0, 0, 0, 1 } };
    s.count = k * k * W.size();
    const Stack* sp = &st;
    const Mode* mp = &mode;
    s.run = [=](u64 i) {
        const auto& w = W[i % W.size()];
        const Gate g[2] = { (*A)[i / W.size() % k], (*A)[i / W.size() / k] };
        if (g[0].swap || g[1].swap)
            return;
        QCircuitGatePtr p[2] = { g[0].make(), g[1].make() };
        Bench b(*sp);
        QCircuitPtr c = circ(*mp), d = circ(*mp);
        Gates seq;
        for (int x : w) {
            c->AppendGate(p[x]);
            seq.push_back(g[x]);
        }
        for (int x : w)
            d->AppendGate(p[1 - x]);
        b.check(c, [&](Ref& r) { refAll(r, seq); }, "circuit");
        b.check(d, [&](Ref& r) {
            for (int x : w)
                g[1 - x].ref(r);
        }, "second circuit of the same gate objects");
        transition(w.size());
        visited(i);
    };
    s.describe = [=](u64 i) {
        std::string d;
        for (int x : W[i % W.size()])
            d += (d.empty() ? "" : "; ") + (*A)[x ? i / W.size() / k : i / W.size() % k].name;
        return d;
    };
    return s;
}
// registers smaller and larger than the circuit, prepared in every basis state and in a superposition
static Suite sizes(const Stack& st, const Gates& A0, const Mode& mode)
{
    Suite s;
    s.name = "sizes/" + st.name + "/" + mode.name;
    s.env = st.env;
    auto A = std::make_shared<Gates>(A0);
    const u64 k = A->size();
    s.count = k * k * 4;
    const Stack* sp = &st;
    const Mode* mp = &mode;
    s.run = [=](u64 i) {
        const int n = 1 + i % 4;
        const Gate g[2] = { (*A)[i / 4 % k], (*A)[i / 4 / k] };
        QCircuitPtr c = circ(*mp);
        for (auto& x : g)
            x.append(c);
        const int need = std::max(g[0].top(), g[1].top());
        MC_CHECK((int)c->GetQubitCount() <= need, "circuit of gates on %d qubits has %d", need, (int)c->GetQubitCount());
        Ctx x;
        x.start(*sp, n, n > 1 ? 2 : 1);
        if (sp->name.substr(0, 6) == "tensor" && (int)c->GetQubitCount() > n)
            return;
        x.q->H(0);
        x.r.g1(0, mH());
        c->Run(x.q);
        MC_CHECK((int)x.q->GetQubitCount() == std::max(n, (int)c->GetQubitCount()), "%d qubits after a circuit of %d qubits ran on %d", (int)x.q->GetQubitCount(),
            (int)c->GetQubitCount(), n);
        Ref r = x.r;
        if (need > n)
            r.compose(Ref(need - n), n);
        g[0].ref(r);
        g[1].ref(r);
        const int q = x.q->GetQubitCount();
        if (q < need) // gates that cancelled
            x.q->Allocate(need - q);
        compareState(x.q, r, x.tol);
        transition(2);
        visited(r.hash());
    };
    s.describe = [=](u64 i) { return fmt("%d qubits: ", (int)(1 + i % 4)) + (*A)[i / 4 % k].name + "; " + (*A)[i / 4 / k].name; };
    return s;
}
#if ENABLE_ALU
static Suite inc(const Stack& st, const Mode& mode)
{
    Suite s;
    s.name = "INC/" + st.name + "/" + mode.name;
    struct K {
        int start, len, add, start2, len2, add2;
    };
    auto L = std::make_shared<std::vector<K>>();
    for (int a = 0; a < 4; ++a)
        for (int l = 0; a + l <= 4; ++l)
            for (int v = 0; v < (2 << l); ++v) {
                L->push_back({ a, l, v, 0, 0, 0 });
                for (int a2 = 0; a2 < 3; ++a2)
                    for (int v2 = 1; v2 < 4; ++v2)
                        L->push_back({ a, l, v, a2, 2, v2 });
            }
    s.count = L->size();
    const Stack* sp = &st;
    const Mode* mp = &mode;
    s.run = [=](u64 i) {
        const K k = (*L)[i];
        QCircuitPtr c = circ(*mp);
        c->INC(k.add, k.start, k.len);
        c->INC(k.add2, k.start2, k.len2);
        Bench b(*sp, 4);
        b.check(c, [&](Ref& r) {
            for (int j = 0; j < 2; ++j) {
                const int st = j ? k.start2 : k.start, ln = j ? k.len2 : k.len;
                const u64 ad = j ? k.add2 : k.add, m = ((1ULL << ln) - 1) << st;
                r.perm([=](u64 x) { return (x & ~m) | ((x + (ad << st)) & m); });
            }
        }, "INC");
        transition(2);
        visited(i);
    };
    s.describe = [=](u64 i) {
        const K& k = (*L)[i];
        return fmt("INC(%d,%d,%d); INC(%d,%d,%d)", k.add, k.start, k.len, k.add2, k.start2, k.len2);
    };
    return s;
}
#endif
// serialization of gates that no register of this size can run: many controls, high permutations
static Suite serial()
{
    Suite s;
    s.name = "serialization of wide gates";
    // number of controls, stride, permutations
    struct K {
        int n, stride, perm;
    };
    auto L = std::make_shared<std::vector<K>>();
    for (int n : { 1, 2, 31, 32, 33, 63, 64, 65, 100, 120, 126 })
        for (int st : { 1, 2 })
            for (int p = 0; p < 6; ++p)
                if (n * st < 250)
                    L->push_back({ n, st, p });
    s.count = L->size();
    s.run = [=](u64 i) {
        const K k = (*L)[i];
        std::set<bitLenInt> cs;
        for (int j = 0; j < k.n; ++j)
            cs.insert(1 + j * k.stride);
        const bitCapInt all = pow2(k.n) - ONE_BCI;
        const bitCapInt perms[] = { ZERO_BCI, ONE_BCI & all, all, pow2(k.n - 1), (all / 3U) & all, (all / 7U) & all };
        std::map<bitCapInt, std::shared_ptr<complex>> pay;
        for (int j = 0; j <= k.perm; ++j) {
            pay[perms[j]] = std::shared_ptr<complex>(new complex[4], std::default_delete<complex[]>());
            const M2 m = mU(.3 + j, .2 * j, -.7);
            for (int x = 0; x < 4; ++x)
                pay[perms[j]].get()[x] = cc(m.m[x]);
        }
        QCircuitPtr c = std::make_shared<QCircuit>();
        c->AppendGate(std::make_shared<QCircuitGate>(0, pay, cs));
        complex x[4] = { ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
        c->AppendGate(std::make_shared<QCircuitGate>(2, x));
        std::stringstream ss;
        ss << c;
        QCircuitPtr d = std::make_shared<QCircuit>();
        ss >> d;
        auto a = c->GetGateList(), b = d->GetGateList();
        MC_CHECK(!ss.fail() && a.size() == b.size() && c->GetQubitCount() == d->GetQubitCount(), "a circuit of %d gates became one of %d", (int)a.size(), (int)b.size());
        for (auto ia = a.begin(), ib = b.begin(); ia != a.end(); ++ia, ++ib) {
            MC_CHECK((*ia)->target == (*ib)->target && (*ia)->controls == (*ib)->controls && (*ia)->payloads.size() == (*ib)->payloads.size(), "a gate changed");
            for (auto pa = (*ia)->payloads.begin(), pb = (*ib)->payloads.begin(); pa != (*ia)->payloads.end(); ++pa, ++pb) {
                MC_CHECK(pa->first == pb->first, "a control permutation changed");
                for (int j = 0; j < 4; ++j)
                    MC_CHECK(std::abs(pa->second.get()[j] - pb->second.get()[j]) < 1e-4, "a matrix changed");
            }
        }
        // a gate read over another one
        QCircuitGatePtr g = std::make_shared<QCircuitGate>(3, pay, cs), h = std::make_shared<QCircuitGate>(5, x);
        std::stringstream s2;
        s2 << h;
        s2 >> g;
        MC_CHECK(g->target == 5 && g->controls.empty() && g->payloads.size() == 1, "a gate without controls has %d after reading it", (int)g->controls.size());
        transition(3);
        visited(i);
    };
    s.describe = [=](u64 i) { return fmt("%d controls, stride %d, permutations %d", (*L)[i].n, (*L)[i].stride, (*L)[i].perm + 1); };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C09", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "circuits on up to four qubits, checked as operators (on a maximally entangled state), up to global phase" };
    const Stack& cpu = stackByName("cpu");
    R.explore(serial());
    for (const Mode& m : MODES) {
        R.explore(seqs("run", cpu, FULL, alphabet(FULL), T ? 3 : 2, m, runs));
        R.explore(seqs("run", cpu, MEDIUM, alphabet(MEDIUM), T ? 4 : 3, m, runs));
        R.explore(seqs("run", cpu, SMALL, alphabet(SMALL), T ? 5 : 4, m, runs));
        R.explore(seqs("run", cpu, TINY, alphabet(TINY), T ? 7 : 5, m, runs));
        R.explore(seqs("cnots", cpu, TINY, cnots(), T ? 8 : 6, m, runs));
        R.explore(seqs("everything", cpu, MEDIUM, alphabet(T ? FULL : MEDIUM), 2, m, everything));
        R.explore(seqs("everything", cpu, SMALL, alphabet(SMALL), 3, m, everything));
        R.explore(seqs("everything", cpu, TINY, alphabet(TINY), T ? 5 : 4, m, everything));
        R.explore(reuse(cpu, alphabet(MEDIUM), m));
        R.explore(inc(cpu, m));
        if (&m == MODES) {
            R.explore(seqs("joined", cpu, MEDIUM, alphabet(MEDIUM), 2, m, joined));
            R.explore(seqs("joined", cpu, TINY, alphabet(TINY), T ? 5 : 4, m, joined));
            if (T)
                R.explore(seqs("joined", cpu, SMALL, alphabet(SMALL), 3, m, joined));
        }
    }
    for (const Stack& st : allStacks()) {
        if (st.clifford || (!T && st.slow > 1))
            continue;
        for (int m = 0; m < (T ? 3 : 1); ++m)
            R.explore(sizes(st, alphabet(T ? MEDIUM : SMALL), MODES[m]));
    }
    return R.finish();
}
