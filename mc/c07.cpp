// C07: copies.  Clone() yields an equal register with the same settings, and from then on neither register can be seen from the
// other: histories act on the original, the clone and a clone of the clone in every order, registers are destroyed in between, and
// after every step all the live ones are compared with a reference of their own.
#include "gates.hpp"
#include "qtensornetwork.hpp"
using namespace mc;

static const int N = 3;

static Alphabet letters(const Stack& st)
{
    const bool tn = st.name.substr(0, 6) == "tensor";
    Alphabet A;
    for (auto& o : coreAlphabet(N, st.clifford))
        A.push_back({ o.name, [=](Ctx& c) {
                         if (c.r.n >= N)
                             o.f(c);
                     } });
    auto add = [&](const std::string& nm, std::function<void(Ctx&)> f) { A.push_back({ nm, f }); };
    for (int t = 0; t < N; ++t) {
        add(fmt("M(%d)", t), [=](Ctx& c) {
            if (t >= c.r.n)
                return;
            const u64 b = 1ULL << t;
            const bool v = c.q->M(t);
            MC_CHECK(c.r.prob(b, v ? b : 0) > 1e-6, "M(%d) returned an impossible %d", t, (int)v);
            c.r.project(b, v ? b : 0);
        });
        if (!tn)
            add(fmt("ForceM(%d) and Dispose", t), [=](Ctx& c) {
                if (t >= c.r.n || c.r.n < 2)
                    return;
                const u64 b = 1ULL << t;
                const bool v = likely(c.r, t);
                c.q->ForceM(t, v, true, true);
                c.r.project(b, v ? b : 0);
                Ref part(0), rest(0);
                c.r.split(t, 1, part, rest);
                c.q->Dispose(t, 1, v);
                c.r = rest;
            });
    }
    add("MAll", [](Ctx& c) {
        const u64 v = (u64)c.q->MAll();
        const u64 m = (1ULL << c.r.n) - 1;
        MC_CHECK(v <= m && c.r.prob(m, v) > 1e-6, "MAll returned an impossible %d", (int)v);
        c.r.project(m, v);
    });
    for (int s : { 0, 1, 3 })
        add(fmt("Allocate(%d,1)", s), [=](Ctx& c) {
            if (c.r.n > N || s > c.r.n)
                return;
            c.q->Allocate(s, 1);
            c.r.compose(Ref(1), s);
        });
    if (!tn)
        for (int s : { 0, 3 })
            add(fmt("Compose(own clone,%d)", s), [=](Ctx& c) {
                if (c.r.n > N || s > c.r.n)
                    return;
                c.q->Compose(c.q->Clone(), s);
                Ref o = c.r;
                c.r.compose(o, s);
            });
    add("SetPermutation(5)", [](Ctx& c) {
        if (c.r.n < N)
            return;
        c.q->SetPermutation(5);
        c.r = Ref(c.r.n, 5);
    });
    add("GetProbs, Prob, TrySeparate, Finish", [=](Ctx& c) {
        std::vector<real1> p(1ULL << c.r.n);
        c.q->GetProbs(p.data());
        for (int t = 0; t < c.r.n; ++t) {
            c.q->Prob(t);
            if (!tn)
                c.q->TrySeparate(t);
        }
        c.q->Finish();
    });
    if (!st.clifford && !tn)
        add("SetQuantumState", [](Ctx& c) {
            std::vector<complex> v(1ULL << c.r.n);
            double s = 0;
            for (size_t i = 0; i < v.size(); ++i)
                s += (1 + i) * (1 + i);
            for (size_t i = 0; i < v.size(); ++i) {
                c.r.a[i] = std::polar((1 + i) / std::sqrt(s), .3 * i);
                v[i] = cc(c.r.a[i]);
            }
            c.q->SetQuantumState(v.data());
        });
    if (st.alu)
        add("INC(1,0,2)", [](Ctx& c) {
            c.q->INC(1, 0, 2);
            Ref o = c.r;
            for (u64 i = 0; i < o.a.size(); ++i)
                c.r.a[(i & ~3ULL) | ((i + 1) & 3)] = o.a[i];
        });
    return A;
}

// a qubit in the middle of a history has been measured, and perhaps acted on again
static std::vector<Alphabet> measuredPreps(const Stack& st)
{
    std::vector<Alphabet> out;
    for (int ent = 0; ent < 3; ++ent)
        for (int m = 0; m < N; ++m)
            for (int again = 0; again < 4; ++again)
                out.push_back({ { fmt("prep H on all%s; ForceM(%d)%s", ent == 0 ? "" : ent == 1 ? ", CNOT(0,1)" : ", CNOT(1,2), CNOT(0,1)", m,
                                      again == 0 ? "" : again == 1 ? "; H on it" : again == 2 ? "; H on it, measured again" : "; H on it, CNOT to the next"),
                    [=](Ctx& c) {
                        for (int t = 0; t < N; ++t) {
                            c.q->H(t);
                            c.r.g1(t, mH());
                            if (!st.clifford && t == 1) {
                                c.q->T(t);
                                c.q->H(t);
                                c.r.g1(t, mul(mH(), mP(PI / 4)));
                            }
                        }
                        if (ent == 2) {
                            c.q->CNOT(1, 2);
                            c.r.ctl(2, 2, 2, mX());
                        }
                        if (ent) {
                            c.q->CNOT(0, 1);
                            c.r.ctl(1, 1, 1, mX());
                        }
                        for (int k = 0; k < (again == 2 ? 2 : 1); ++k) {
                            const bool v = likely(c.r, m) ^ (k == 1);
                            c.q->ForceM(m, v, true, true);
                            c.r.project(1ULL << m, v ? 1ULL << m : 0);
                            if (again) {
                                c.q->H(m);
                                c.r.g1(m, mH());
                            }
                        }
                        if (again == 3) {
                            c.q->CNOT(m, (m + 1) % N);
                            c.r.ctl(1ULL << m, 1ULL << m, (m + 1) % N, mX());
                        }
                    } } });
    return out;
}

struct Live {
    QInterfacePtr q;
    Ref r{ 0 };
    const char* name;
};
static void poke(QInterfacePtr q, Ref& r)
{
    q->H(0);
    q->S(0);
    r.g1(0, mul(mP(PI / 2), mH()));
    if (r.n > 1) {
        q->CNOT(0, r.n - 1);
        r.ctl(1, 1, r.n - 1, mX());
    }
}
static void settings(QInterfacePtr a, QInterfacePtr b)
{
    MC_CHECK(a->GetQubitCount() == b->GetQubitCount(), "a clone of %d qubits has %d", (int)a->GetQubitCount(), (int)b->GetQubitCount());
    MC_CHECK(a->GetMaxQPower() == b->GetMaxQPower(), "a clone has another maximum power");
    MC_CHECK(a->isClifford() == b->isClifford(), "isClifford() %d became %d in the clone", (int)a->isClifford(), (int)b->isClifford());
    MC_CHECK(a->GetTInjection() == b->GetTInjection(), "GetTInjection() %d became %d in the clone", (int)a->GetTInjection(), (int)b->GetTInjection());
    MC_CHECK(a->GetReactiveSeparate() == b->GetReactiveSeparate(), "GetReactiveSeparate() %d became %d in the clone", (int)a->GetReactiveSeparate(),
        (int)b->GetReactiveSeparate());
    const double fa = a->GetUnitaryFidelity(), fb = b->GetUnitaryFidelity();
    MC_CHECK(std::fabs(fa - fb) < 1e-4, "GetUnitaryFidelity() %.6f became %.6f in the clone", fa, fb);
}

// prep, [first], clone, [second], clone the clone, then the letters of the case on the registers of the case; `ops` letters in all
struct Plan {
    const char* name;
    std::vector<int> who; // register of each letter: 0 original, 1 clone, 2 clone of the clone; -1: before the (first) clone
    int destroy; // register that is dropped before the last letter
};

static Suite suite(const std::string& name, const Stack& st, const std::vector<Alphabet>& preps, const Alphabet& ops, std::vector<Plan> plans)
{
    Suite s;
    s.name = name + "/" + st.name;
    s.env = st.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto O = std::make_shared<Alphabet>(ops);
    const Stack* sp = &st;
    std::vector<u64> ofs;
    u64 total = 0;
    for (auto& p : plans) {
        ofs.push_back(total);
        u64 k = preps.size();
        for (size_t i = 0; i < p.who.size(); ++i)
            k *= ops.size();
        total += k;
    }
    s.count = total;
    auto decode = [=](u64 i, size_t& pl, std::vector<size_t>& l, size_t& prep) {
        pl = plans.size() - 1;
        while (i < ofs[pl])
            --pl;
        i -= ofs[pl];
        l.clear();
        for (size_t k = 0; k < plans[pl].who.size(); ++k, i /= O->size())
            l.push_back(i % O->size());
        prep = i;
    };
    s.run = [=](u64 i) {
        size_t pl, pr;
        std::vector<size_t> l;
        decode(i, pl, l, pr);
        const Plan& p = plans[pl];
        Ctx c;
        c.start(*sp, N);
        for (auto& o : (*P)[pr])
            o.f(c);
        std::vector<Live> live{ { c.q, c.r, "original" } };
        auto all = [&](const char* when) {
            for (auto& x : live)
                if (x.q)
                    compareState(x.q, x.r, c.tol, (std::string("the ") + x.name + " " + when).c_str());
        };
        const int most = *std::max_element(p.who.begin(), p.who.end());
        bool cloned = false;
        for (size_t k = 0; k < l.size(); ++k) {
            if (!cloned && p.who[k] >= 0) {
                live.push_back({ live[0].q->Clone(), live[0].r, "clone" });
                settings(live[0].q, live[1].q);
                if (most > 1) {
                    live.push_back({ live[1].q->Clone(), live[0].r, "clone of the clone" });
                    settings(live[1].q, live[2].q);
                }
                cloned = true;
                // (no look at the amplitudes here: that could settle what is still shared)
            }
            if (k + 1 == l.size() && p.destroy >= 0) {
                c.q.reset();
                live[p.destroy].q.reset();
            }
            Live& x = live[std::max(0, p.who[k])];
            c.q = x.q;
            c.r = x.r;
            (*O)[l[k]].f(c);
            x.q = c.q;
            x.r = c.r;
        }
        c.q.reset();
        transition((*P)[pr].size() + l.size());
        all("after the history");
        for (size_t k = 0; k < live.size(); ++k)
            if (live[k].q) {
                poke(live[k].q, live[k].r);
                visited(live[k].r.hash());
            }
        all("after a further gate on each");
        for (size_t k = 0; k + 1 < live.size(); ++k) {
            live[k].q.reset();
            all("after others were destroyed");
        }
    };
    s.describe = [=](u64 i) {
        size_t pl, pr;
        std::vector<size_t> l;
        decode(i, pl, l, pr);
        static const char* nm[] = { "before: ", "original: ", "clone: ", "clone2: " };
        std::string d = std::string(plans[pl].name) + "; ";
        for (auto& o : (*P)[pr])
            d += o.name + "; ";
        for (size_t k = 0; k < l.size(); ++k)
            d += nm[plans[pl].who[k] + 1] + (*O)[l[k]].name + (k + 1 < l.size() ? "; " : "");
        return d;
    };
    return s;
}

// settings survive cloning
static Suite settingsSuite(const Stack& st)
{
    Suite s;
    s.name = "settings/" + st.name;
    s.env = st.env;
    s.count = 2 * 2 * 3 * 4;
    const Stack* sp = &st;
    s.run = [=](u64 i) {
        Ctx c;
        c.start(*sp, N);
        c.q->SetTInjection(i & 1);
        c.q->SetReactiveSeparate((i >> 1) & 1);
        const double ncrp[] = { 0, 0.1, 0.6 };
        c.q->SetNcrp(ncrp[(i >> 2) % 3]);
        const int prep = (i >> 2) / 3;
        c.q->H(0);
        c.r.g1(0, mH());
        if (!sp->clifford && prep) {
            // rounded away, when rounding is on: the fidelity estimate carries over
            for (int k = 0; k < prep; ++k) {
                c.q->T(0);
                c.q->H(0);
            }
            c.q->CNOT(0, 1);
        }
        QInterfacePtr k = c.q->Clone();
        settings(c.q, k);
        QInterfacePtr k2 = k->Clone();
        settings(k, k2);
        // the same further gates and query, the same answer: rounding included
        std::vector<double> p[2];
        for (int j = 0; j < 2; ++j) {
            QInterfacePtr q = j ? k2 : c.q;
            c.rng.fixed();
            rdScript.script({});
            q->H(1);
            if (!sp->clifford)
                q->RZ(.15f, 1);
            q->H(1);
            q->CNOT(1, 2);
            for (int t = 0; t < N; ++t)
                p[j].push_back(q->Prob(t));
        }
        for (int t = 0; t < N; ++t)
            MC_CHECK(std::fabs(p[0][t] - p[1][t]) < 1e-3, "Prob(%d) after the same gates: %.4f on the original, %.4f on the clone", t, p[0][t], p[1][t]);
        MC_CHECK(std::fabs(c.q->GetUnitaryFidelity() - k2->GetUnitaryFidelity()) < 1e-3, "fidelity after the same gates: %.4f on the original, %.4f on the clone",
            (double)c.q->GetUnitaryFidelity(), (double)k2->GetUnitaryFidelity());
        transition(6);
        visited(i);
    };
    s.describe = [=](u64 i) { return fmt("T injection %d, reactive separation %d, ncrp #%d, prep %d", (int)(i & 1), (int)((i >> 1) & 1), (int)((i >> 2) % 3), (int)((i >> 2) / 3)); };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C07", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "three-qubit registers, which grow to 7 and shrink to 2 within a history" };
    for (const Stack& st : allStacks()) {
        const bool slow = st.slow > 1;
        Alphabet L = letters(st);
        auto all = prepMenu(N, st.clifford, !T), few = prepMenu(N, st.clifford, true);
        std::vector<Alphabet> some, measured = measuredPreps(st);
        all.insert(all.end(), measured.begin(), measured.end());
        for (size_t i = 0; i < few.size(); ++i)
            if (T ? i % 3 == 1 : i % (slow ? 40 : 9) == 5)
                some.push_back(few[i]);
        for (size_t i = 0; i < measured.size(); ++i)
            if (T ? i % 3 == 1 : i % (slow ? 40 : 9) == 5)
                some.push_back(measured[i]);
        R.explore(settingsSuite(st));
        R.explore(suite("one", st, slow && !T ? some : all, L, { { "original acts", { 0 }, -1 }, { "clone acts", { 1 }, -1 }, { "second clone acts", { 2 }, -1 }, { "clone acts, original destroyed", { 1 }, 0 } }));
        if (!slow || T)
            R.explore(suite("two", st, some, L,
                { { "both act", { 0, 1 }, -1 }, { "both act", { 1, 0 }, -1 }, { "clones act", { 1, 2 }, -1 }, { "clone, later alone", { 1, 1 }, 0 }, { "letter before", { -1, 1 }, -1 } }));
        if (T && !slow)
            R.explore(suite("three", st, { some[some.size() / 2] }, L, { { "by turns", { -1, 0, 1 }, -1 }, { "by turns", { 0, 1, 0 }, -1 } }));
    }
    return R.finish();
}
