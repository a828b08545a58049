// C11: threads.  Programs run under every schedule within a bound (sched_rt.cpp): the work queue on its own, and the simulators
// that use it, or that hand work to several threads.
#include "gates.hpp"
#include "schedrun.hpp"
#include "common/dispatchqueue.hpp"
using namespace mc;

// ------------------------------------------------------------------ the queue
// letters: d dispatch, f finish, u dump, i isFinished, n dispatch an operation that dispatches another
static Suite queue(const std::string& name, const std::string& letters, int len, const Bounds& b)
{
    Suite s;
    s.name = "queue/" + name + fmt("/%d/p%d%s", len, b.preemptions, b.spurious ? "+spurious" : "");
    u64 k = 1;
    for (int i = 0; i < len; ++i)
        k *= letters.size();
    s.count = k;
    s.hangSeconds = 300;
    auto prog = [=](u64 i) {
        std::string p;
        for (int j = 0; j < len; ++j, i /= letters.size())
            p += letters[i % letters.size()];
        return p;
    };
    s.run = [=](u64 i) {
        const std::string p = prog(i);
        const bool nested = p.find('n') != std::string::npos; // (then another may get in between)
        under(b, [&] {
            std::vector<int> log;
            std::vector<char> must, dumped;
            int next = 0;
            log.reserve(16);
            std::atomic<int> running{ 0 };
            {
                Qrack::DispatchQueue q;
                auto op = [&log, &running](int k) {
                    return [k, &log, &running] {
                        running = 1;
                        log.push_back(k); // (unprotected on purpose: operations never overlap each other)
                        sched::yield();
                        log.push_back(k);
                        running = 0;
                    };
                };
                auto check = [&](const char* when, bool all) {
                    // nothing runs now: the log is ours
                    if (running)
                        return sched::failIn(fmt("an operation is still running %s", when));
                    int last = -1;
                    for (size_t j = 0; j + 1 < log.size(); j += 2) {
                        if (log[j] != log[j + 1] || (!nested && log[j] <= last) || std::count(log.begin(), log.end(), log[j]) > 2)
                            return sched::failIn(fmt("operations overlapped, were repeated or out of order %s", when));
                        last = log[j];
                    }
                    if (log.size() & 1)
                        return sched::failIn(fmt("an operation was interrupted %s", when));
                    if (all)
                        for (int j = 0; j < next; ++j)
                            if (!dumped[j] && !std::count(log.begin(), log.end(), j))
                                return sched::failIn(fmt("operation %d was lost %s", j, when));
                };
                for (char ch : p) {
                    if (ch == 'd') {
                        dumped.push_back(0);
                        q.dispatch(op(next++));
                    } else if (ch == 'n') {
                        dumped.push_back(0);
                        dumped.push_back(0);
                        const int k = next;
                        next += 2;
                        auto o = op(k + 1);
                        auto o0 = op(k);
                        q.dispatch([&q, o, o0] {
                            o0();
                            q.dispatch(o);
                        });
                    } else if (ch == 'f') {
                        q.finish();
                        check("after finish()", true);
                    } else if (ch == 'u') {
                        q.dump();
                        for (auto& x : dumped)
                            x = 1;
                        check("after dump()", false);
                    } else if (ch == 'i') {
                        if (q.isFinished())
                            check("while isFinished()", true);
                    }
                }
            }
            if (running)
                sched::failIn("an operation is running after the queue is gone");
            u64 h = 17;
            for (int x : log)
                h = mix(h, x);
            visited(mix(h, i));
        });
    };
    s.describe = [=](u64 i) { return "program " + prog(i) + " and destruction"; };
    return s;
}

// ------------------------------------------------------------------ simulators
static Alphabet engineLetters(const Stack& st, int n, bool full)
{
    const bool tn = st.name.substr(0, 6) == "tensor", hyb = st.name.find("stab") != std::string::npos;
    Alphabet A;
    auto add = [&](const std::string& nm, std::function<void(Ctx&)> f) { A.push_back({ nm, f }); };
    add("H(0)", [](Ctx& c) {
        c.q->H(0);
        c.r.g1(0, mH());
    });
    add(fmt("RY(%d)", n - 1), [=](Ctx& c) {
        c.q->RY(.7f, n - 1);
        c.r.g1(n - 1, mRY(.7f));
    });
    add("T(1)", [](Ctx& c) {
        c.q->T(1);
        c.r.g1(1, mP(PI / 4));
    });
    add("CNOT(0,1)", [](Ctx& c) {
        c.q->CNOT(0, 1);
        c.r.ctl(1, 1, 1, mX());
    });
    add("ForceM(0)", [=](Ctx& c) {
        const bool v = likely(c.r, 0);
        c.q->ForceM(0, v);
        c.r.project(1, v);
    });
    add("SetPermutation(2)", [](Ctx& c) {
        c.q->SetPermutation(2);
        c.r = Ref(c.r.n, 2);
    });
    add("Prob(1)", [](Ctx& c) {
        const double p = c.q->Prob(1), e = c.r.prob(2, 2);
        MC_CHECK(std::fabs(p - e) < 1e-3, "Prob(1) = %.4f, expected %.4f", p, e);
    });
    add("GetAmplitude(1)", [](Ctx& c) {
        const complex a = c.q->GetAmplitude(1);
        const double p = std::norm(cd(a.real(), a.imag())), e = std::norm(c.r.a[1]);
        MC_CHECK(std::fabs(p - e) < 1e-3, "|GetAmplitude(1)|^2 = %.4f, expected %.4f", p, e);
    });
    add("clone, gate on the clone, drop the original", [](Ctx& c) {
        QInterfacePtr k = c.q->Clone();
        c.q->X(0);
        k->S(0);
        c.q = k;
        c.r.g1(0, mP(PI / 2));
    });
    if (!full)
        return A;
    if (n > 2)
        add("CCNOT(0,1,2)", [](Ctx& c) {
            c.q->CCNOT(0, 1, 2);
            c.r.ctl(3, 3, 2, mX());
        });
    add("Swap(0,1)", [](Ctx& c) {
        c.q->Swap(0, 1);
        apply4(c.r, 0, 1, mSwapLike(0, 1));
    });
    add("MAll", [](Ctx& c) {
        const u64 v = (u64)c.q->MAll();
        MC_CHECK(v < c.r.size() && c.r.prob(c.r.size() - 1, v) > 1e-6, "MAll returned an impossible %d", (int)v);
        c.r.project(c.r.size() - 1, v);
    });
    if (!tn) {
        add("Compose(clone)", [](Ctx& c) {
            if (c.r.n > 2)
                return;
            c.q->Compose(c.q->Clone());
            Ref o = c.r;
            c.r.compose(o, c.r.n);
        });
        add("ForceM and Dispose", [=](Ctx& c) {
            if (c.r.n < 2)
                return;
            const bool v = likely(c.r, 1);
            c.q->ForceM(1, v);
            c.r.project(2, v ? 2 : 0);
            Ref a(0), b(0);
            c.r.split(1, 1, a, b);
            c.q->Dispose(1, 1, v);
            c.q->Allocate(1);
            c.r = b;
            c.r.compose(Ref(1), b.n);
            // the new qubit is put last
        });
        add("SetQuantumState", [](Ctx& c) {
            std::vector<complex> v(c.r.size());
            double s = 0;
            for (size_t i = 0; i < v.size(); ++i)
                s += (1 + i) * (1 + i);
            for (size_t i = 0; i < v.size(); ++i) {
                c.r.a[i] = std::polar((1 + i) / std::sqrt(s), .3 * i);
                v[i] = cc(c.r.a[i]);
            }
            c.q->SetQuantumState(v.data());
        });
        if (st.name.find("qunit") == std::string::npos) // (its global phase is arbitrary)
        add("SetAmplitude(0, same)", [](Ctx& c) {
            c.q->SetAmplitude(0, c.q->GetAmplitude(0));
        });
    }
    add("NormalizeState, UpdateRunningNorm", [](Ctx& c) {
        c.q->UpdateRunningNorm();
        c.q->NormalizeState();
    });
    add("isFinished, Finish", [](Ctx& c) {
        c.q->isFinished();
        c.q->Finish();
        MC_CHECK(c.q->isFinished(), "not isFinished() after Finish()");
    });
    add("ProbMask, ExpectationBitsAll", [=](Ctx& c) {
        const double p = c.q->ProbMask(3, 1), e = c.r.prob(3, 1);
        MC_CHECK(std::fabs(p - e) < 1e-3, "ProbMask(3,1) = %.4f, expected %.4f", p, e);
        std::vector<bitLenInt> b{ 0, 1 };
        const double x = c.q->ExpectationBitsAll(b), y = c.r.prob(3, 1) + 2 * c.r.prob(3, 2) + 3 * c.r.prob(3, 3);
        MC_CHECK(std::fabs(x - y) < 3e-3, "ExpectationBitsAll = %.4f, expected %.4f", x, y);
    });
    add("MultiShotMeasureMask", [](Ctx& c) {
        if (c.r.n > 3)
            return; // (more threads than the explorer's 64)
        auto m = c.q->MultiShotMeasureMask({ (bitCapInt)1U, (bitCapInt)2U }, 3);
        unsigned t = 0;
        for (auto& x : m) {
            t += x.second;
            MC_CHECK((u64)x.first < 4 && c.r.prob(3, (u64)x.first) > 1e-6, "MultiShotMeasureMask returned an impossible %d", (int)x.first);
        }
        MC_CHECK(t == 3, "%u shots instead of 3", t);
    });
    if (st.alu) {
        add("INC(1,0,2)", [](Ctx& c) {
            c.q->INC(1, 0, 2);
            c.r.perm([](u64 x) { return (x & ~3ULL) | ((x + 1) & 3); });
        });
        if (!hyb)
            add("UniformParityRZ, PhaseFlipIfLess", [](Ctx& c) {
                auto p = std::dynamic_pointer_cast<Qrack::QParity>(c.q);
                p->UniformParityRZ(3, .4f);
                std::dynamic_pointer_cast<Qrack::QAlu>(c.q)->PhaseFlipIfLess(2, 0, 2);
                c.r.diag([](u64 x) {
                    const double a = (__builtin_popcountll(x & 3) & 1) ? .4 : -.4;
                    return std::polar(1.0, a) * ((x & 3) < 2 ? -1.0 : 1.0);
                });
            });
    }
    return A;
}
struct Config {
    const char* stack;
    const char* stride;
    unsigned cores;
    int n;
};
static Suite programs(const Config& f, int len, bool full, const Bounds& b, bool superposed)
{
    static std::vector<std::unique_ptr<Stack>> keep;
    const Stack& base = stackByName(f.stack);
    Suite s;
    s.name = fmt("%s/stride 2^%s, %u cores, %d qubits/%d%s/%s%d%s", f.stack, f.stride, f.cores, f.n, len, full ? " full" : "", b.delays ? "d" : "p", b.preemptions,
        superposed ? "/superposed" : "");
    s.env = base.env;
    s.env.push_back({ "QRACK_PSTRIDEPOW", f.stride });
    s.hangSeconds = 300;
    auto A = std::make_shared<Alphabet>(engineLetters(base, f.n, full));
    u64 k = 1;
    for (int i = 0; i < len; ++i)
        k *= A->size();
    s.count = k;
    const Stack* sp = &base;
    const Config cf = f;
    s.init = [=] { mcCores = cf.cores; };
    s.run = [=](u64 i) {
        mcCores = cf.cores;
        std::vector<int> l;
        for (u64 j = i, d = 0; d < (u64)len; ++d, j /= A->size())
            l.push_back(j % A->size());
        under(b, [&] {
            Ctx c;
            c.start(*sp, cf.n, 1);
            if (superposed)
                for (int t = 0; t < cf.n; ++t) {
                    c.q->RY(.5f + t, t);
                    c.r.g1(t, mRY(.5f + t));
                }
            for (int x : l)
                (*A)[x].f(c);
            if (i & 1) {
                // (or it is destroyed with work in flight)
                compareState(c.q, c.r, c.tol, "state at the end");
                visited(c.r.hash());
            } else {
                QInterfacePtr k = c.q->Clone();
                c.q->H(0);
                c.q.reset();
                compareState(k, c.r, c.tol, "state of a clone at the end");
            }
        });
    };
    s.describe = [=](u64 i) {
        std::string d;
        for (int j = 0; j < len; ++j, i /= A->size())
            d += (j ? "; " : "") + (*A)[i % A->size()].name;
        return d;
    };
    return s;
}

// ------------------------------------------------------------------ every operation of the engine, with a gate in flight
struct EngineOp {
    std::string name;
    // returns something to compare; g(q) is called after each step ("" or Finish)
    std::function<double(QInterfacePtr&, const std::function<void(QInterfacePtr)>&)> f;
};
static std::vector<EngineOp> engineOps(int n)
{
    typedef std::function<void(QInterfacePtr)> G;
    std::vector<EngineOp> A;
    auto add = [&](const std::string& nm, std::function<double(QInterfacePtr&, const G&)> f) { A.push_back({ nm, f }); };
#define V(nm, ...)                                                                                                    \
    add(nm, [=](QInterfacePtr& q, const G& g) -> double {                                                              \
        (void)g;                                                                                                       \
        __VA_ARGS__;                                                                                                   \
        return 0;                                                                                                      \
    })
#define P(nm, expr) add(nm, [=](QInterfacePtr& q, const G&) -> double { return (double)(expr); })
#define ALU std::dynamic_pointer_cast<Qrack::QAlu>(q)
#define PAR std::dynamic_pointer_cast<Qrack::QParity>(q)
#define ENG std::dynamic_pointer_cast<Qrack::QEngine>(q)
    typedef std::vector<bitLenInt> L;
    const bitCapInt one = 1U, two = 2U, three = 3U;
    // (a second engine with a gate of its own in flight)
#define OTHER                                                                                                          \
    QInterfacePtr k = q->Clone();                                                                                      \
    g(k);                                                                                                              \
    k->H(1);                                                                                                           \
    g(k);                                                                                                              \
    k->T(0);                                                                                                           \
    k->RY(.9f, 0);                                                                                                     \
    g(k)
    P("Prob(1)", q->Prob(1));
    P("CProb(0,1)", q->CProb(0, 1));
    P("ACProb(0,1)", q->ACProb(0, 1));
    P("ProbAll(3)", q->ProbAll(three));
    P("ProbReg(0,2,1)", q->ProbReg(0, 2, one));
    P("ProbMask(5,1)", q->ProbMask(5U, one));
    P("ProbParity(3)", PAR->ProbParity(three));
    P("GetAmplitude(3)", std::norm(q->GetAmplitude(three)));
    V("GetProbs", std::vector<Qrack::real1> v((size_t)q->GetMaxQPower()); q->GetProbs(v.data()); double t = 0; for (size_t i = 0; i < v.size(); ++i) t += (i + 1) * v[i]; return t);
    V("ProbMaskAll", std::vector<Qrack::real1> v(4); q->ProbMaskAll(three, v.data()); return v[0] + 2 * v[1] + 3 * v[2] + 5 * v[3]);
    V("ProbBitsAll", std::vector<Qrack::real1> v(4); q->ProbBitsAll(L{ 1, 0 }, v.data()); return v[0] + 2 * v[1] + 3 * v[2] + 5 * v[3]);
    P("ExpectationBitsAll", q->ExpectationBitsAll(L{ 0, 1 }));
    P("VarianceBitsAll", q->VarianceBitsAll(L{ 0, 1 }));
    P("ExpectationPauliAll", q->ExpectationPauliAll(L{ 0, 1 }, { Qrack::PauliX, Qrack::PauliZ }));
    P("FirstNonzeroPhase", q->FirstNonzeroPhase());
    P("isZeroAmplitude, GetRunningNorm", ENG ? (double)ENG->IsZeroAmplitude() + ENG->GetRunningNorm() : 0);
    V("SumSqrDiff", OTHER; return q->SumSqrDiff(k));
    V("ApproxCompare", OTHER; return q->ApproxCompare(k));
    V("GetAmplitudePage", if (!ENG) return 0; std::vector<complex> v((size_t)q->GetMaxQPower() / 2); ENG->GetAmplitudePage(v.data(), 1, v.size()); double t = 0; for (size_t i = 0; i < v.size(); ++i) t += (i + 1) * std::norm(v[i]); return t);
    // two engines
    V("SetAmplitudePage(engine)", if (!ENG) return 0; OTHER; const u64 h = (u64)q->GetMaxQPower() / 2; ENG->SetAmplitudePage(std::dynamic_pointer_cast<Qrack::QEngine>(k), h, 0, h); k->X(0));
    V("SetAmplitudePage(engine, all)", if (!ENG) return 0; OTHER; ENG->SetAmplitudePage(std::dynamic_pointer_cast<Qrack::QEngine>(k), 0, 0, (u64)q->GetMaxQPower()); k->X(0));
    V("SetAmplitudePage(array)", if (!ENG) return 0; std::vector<complex> v((size_t)q->GetMaxQPower() / 2, complex(.1f, .2f)); ENG->SetAmplitudePage(v.data(), 0, v.size()));
    V("ShuffleBuffers", if (!ENG) return 0; OTHER; ENG->ShuffleBuffers(std::dynamic_pointer_cast<Qrack::QEngine>(k)); k->X(0); g(k); return k->Prob(1));
    V("CopyStateVec", if (!ENG) return 0; OTHER; ENG->CopyStateVec(std::dynamic_pointer_cast<Qrack::QEngine>(k)); k->X(0));
    V("CloneEmpty, CopyStateVec", if (!ENG) return 0; auto k = ENG->CloneEmpty(); k->CopyStateVec(ENG); q->X(0); q = k);
    V("ZeroAmplitudes of a clone", if (!ENG) return 0; OTHER; std::dynamic_pointer_cast<Qrack::QEngine>(k)->ZeroAmplitudes(); return k->Prob(0));
    V("Compose(other)", OTHER; q->Compose(k); k->X(0));
    V("Compose(other, 1)", OTHER; q->Compose(k, 1); k->X(0));
    V("Compose, Dispose", OTHER; const int m = q->GetQubitCount(); q->Compose(k); g(q); q->Dispose(m, m));
    V("Compose, Decompose", OTHER; const int m = q->GetQubitCount(); q->Compose(k); g(q); q->H(0); g(q); k->S(0); q->Decompose(m, k); k->X(0); g(k); return k->Prob(1));
    V("Compose, TryDecompose", OTHER; const int m = q->GetQubitCount(); q->Compose(k); g(q); q->H(0); g(q); const double r = q->TryDecompose(m, k); k->X(0); g(k); return r + k->Prob(1));
    V("Allocate(0,1), Dispose(0,1,0)", q->Allocate(0, 1); g(q); q->X(1); g(q); q->Dispose(0, 1, Qrack::ZERO_BCI));
    V("Clone", OTHER; q->X(0); g(q); std::swap(q, k));
    V("drop a clone", OTHER; k.reset());
    // measurement and preparation
    P("ForceM(0,1)", q->ForceM(0, true));
    P("M(1)", q->M(1));
    P("ForceMReg(0,2,1)", q->ForceMReg(0, 2, one));
    P("ForceMParity(3,1)", PAR->ForceMParity(three, true));
    P("MParity(3)", PAR->MParity(three));
    P("MAll", q->MAll());
    V("MultiShotMeasureMask", auto m = q->MultiShotMeasureMask({ one, two }, 3); double t = 0; for (auto& x : m) t += (1 + (int)x.first) * x.second; return t);
    V("MultiShotMeasureMask(array)", unsigned long long o[3]; q->MultiShotMeasureMask({ one, two }, 3, o); return o[0] + o[1] + o[2]);
    V("SetBit(0,1)", q->SetBit(0, true));
    V("SetReg(0,2,1)", q->SetReg(0, 2, one));
    V("SetPermutation(2)", q->SetPermutation(two));
    V("SetAmplitude(1)", q->SetAmplitude(one, complex(.3f, .1f)));
    V("SetQuantumState", std::vector<complex> v((size_t)q->GetMaxQPower()); const double d = std::sqrt((double)v.size()); for (size_t i = 0; i < v.size(); ++i) v[i] = cc(std::polar(1 / d, .3 * i)); q->SetQuantumState(v.data()));
    V("NormalizeState", q->NormalizeState());
    V("NormalizeState(1, 1e-9, .4)", q->NormalizeState(1, 1e-9f, .4f));
    V("UpdateRunningNorm", q->UpdateRunningNorm());
    V("QueueSetRunningNorm(1), QueueSetDoNormalize(1)", if (!ENG) return 0; ENG->QueueSetRunningNorm(1); ENG->QueueSetDoNormalize(true));
    V("SetConcurrency(2)", q->SetConcurrency(2));
    V("TimeEvolve", Qrack::Hamiltonian h; auto mt = std::shared_ptr<complex>(new complex[4]{ complex(.3f), complex(.1f), complex(.1f), complex(.2f) }, std::default_delete<complex[]>()); h.push_back(std::make_shared<Qrack::HamiltonianOp>(0, mt)); q->TimeEvolve(h, .5f));
    // gates
    V("XMask(3)", q->XMask(three));
    V("ZMask(3)", q->ZMask(three));
    V("PhaseParity", q->PhaseParity(.3f, three));
    V("PhaseRootNMask", q->PhaseRootNMask(3, three));
    V("UniformParityRZ", PAR->UniformParityRZ(three, .4f));
    V("CUniformParityRZ", PAR->CUniformParityRZ(L{ 2 }, three, .4f));
    V("UniformlyControlledRY", const Qrack::real1 a[2] = { .3f, .8f }; q->UniformlyControlledRY(L{ 1 }, 0, a));
    V("UniformlyControlledSingleBit", complex m[8]; for (int j = 0; j < 2; ++j) { const float a = .3f + .5f * j; m[4 * j] = m[4 * j + 3] = complex(std::cos(a)); m[4 * j + 1] = complex(-std::sin(a)); m[4 * j + 2] = complex(std::sin(a)); } q->UniformlyControlledSingleBit(L{ 1 }, 0, m));
    V("H(0), T(0), RX(1)", q->H(0); g(q); q->T(0); g(q); q->RX(.3f, 1));
    V("CNOT, CY, CH", q->CNOT(0, 1); g(q); q->CY(1, 2); g(q); q->CH(2, 0));
    V("MCMtrx", complex m[4] = { complex(.6f), complex(.8f), complex(.8f), complex(-.6f) }; q->MCMtrx(L{ 0, 1 }, m, 2));
    V("Swap", q->Swap(0, 1));
    V("ISwap", q->ISwap(0, 1));
    V("SqrtSwap", q->SqrtSwap(0, 1));
    V("FSim", q->FSim(.3f, .4f, 0, 1));
    V("CSwap", q->CSwap(L{ 2 }, 0, 1));
    V("QFT", q->QFT(0, 2));
    V("Reverse", q->Reverse(0, n));
    V("ROL", q->ROL(1, 0, 3));
    // arithmetic
    V("INC", ALU->INC(one, 0, 2));
    V("CINC", ALU->CINC(one, 0, 2, L{ 2 }));
    V("INCC", ALU->INCC(one, 0, 2, 2));
    V("DECC", ALU->DECC(one, 0, 2, 2));
    V("INCS", ALU->INCS(one, 0, 2, 2));
    V("PhaseFlipIfLess", ALU->PhaseFlipIfLess(two, 0, 2));
    V("CPhaseFlipIfLess", ALU->CPhaseFlipIfLess(two, 0, 2, 2));
    V("FullAdd", q->FullAdd(0, 1, 2, n - 1));
    V("Hash", const unsigned char t[4] = { 2, 0, 3, 1 }; ALU->Hash(0, 2, t));
    if (n > 3) {
        V("INCSC", ALU->INCSC(one, 0, 2, 2, 3));
        V("INCSC/no overflow bit", ALU->INCSC(one, 0, 2, 2));
        V("IFullAdd", q->IFullAdd(0, 1, 2, 3));
        V("MUL", q->SetReg(2, 2, Qrack::ZERO_BCI); g(q); q->RY(.4f, 0); ALU->MUL(two, 0, 2, 2));
        V("DIV", ALU->DIV(two, 0, 2, 2));
        V("MULModNOut", q->SetReg(2, 2, Qrack::ZERO_BCI); g(q); q->RY(.4f, 0); ALU->MULModNOut(three, 4U, 0, 2, 2));
        V("IMULModNOut", ALU->IMULModNOut(three, 4U, 0, 2, 2));
        V("POWModNOut", q->SetReg(2, 2, Qrack::ZERO_BCI); g(q); q->RY(.4f, 0); ALU->POWModNOut(three, 4U, 0, 2, 2));
        const unsigned char T4[4] = { 1, 3, 0, 2 };
        const std::vector<unsigned char> t(T4, T4 + 4);
        P("IndexedLDA", ALU->IndexedLDA(0, 2, 2, 2, t.data()));
        P("CMUL", (ALU->CMUL(three, 0, 1, 1, L{ 2 }), 0));
        P("CDIV", (ALU->CDIV(three, 0, 1, 1, L{ 2 }), 0));
        P("CMULModNOut", (ALU->CMULModNOut(three, two, 0, 1, 1, L{ 2 }), 0));
        P("CIMULModNOut", (ALU->CIMULModNOut(three, two, 0, 1, 1, L{ 2 }), 0));
        P("CPOWModNOut", (ALU->CPOWModNOut(three, two, 0, 1, 1, L{ 2 }), 0));
        const std::vector<unsigned char> t2{ 1, 0 };
        P("IndexedADC", ALU->IndexedADC(0, 1, 1, 1, 2, t2.data()));
        P("IndexedSBC", ALU->IndexedSBC(0, 1, 1, 1, 2, t2.data()));
    }
    return A;
}
static Suite inFlight(const Config& f, const Bounds& b)
{
    const Stack& base = stackByName(f.stack);
    Suite s;
    s.name = fmt("in flight/%s/stride 2^%s, %u cores, %d qubits/%s%d", f.stack, f.stride, f.cores, f.n, b.delays ? "d" : "p", b.preemptions);
    s.env = base.env;
    s.env.push_back({ "QRACK_PSTRIDEPOW", f.stride });
    s.hangSeconds = 300;
    auto A = std::make_shared<std::vector<EngineOp>>();
    for (auto& o : engineOps(f.n))
        if (!strstr(f.stack, "pager") || o.name.compare(0, 7, "Compose")) // (too many pages)
            A->push_back(o);
    s.count = A->size() * 6;
    const Stack* sp = &base;
    const Config cf = f;
    s.init = [=] { mcCores = cf.cores; };
    s.run = [=](u64 i) {
        mcCores = cf.cores;
        const EngineOp& op = (*A)[i / 6];
        const int pre = i % 3, post = i / 3 % 2;
        auto program = [&](bool sync, double& val) {
            Ctx c;
            c.start(*sp, cf.n, 1);
            auto g = [sync](QInterfacePtr x) {
                if (sync)
                    x->Finish();
            };
            for (int t = 0; t < cf.n; ++t)
                c.q->RY(.5f + t, t);
            if (!strncmp(cf.stack, "qunit", 5))
                for (int t = 1; t < cf.n; ++t) { // (one engine for all of the qubits)
                    c.q->CNOT(t - 1, t);
                    c.q->RY(.3f, t);
                    c.q->CNOT(t, t - 1);
                    c.q->RY(.3f, t);
                }
            c.q->Finish();
            if (pre == 0) {
                c.q->RX(.7f, 0);
                g(c.q);
                c.q->H(1);
            } else if (pre == 1)
                c.q->CNOT(1, 0);
            else
                c.q->RY(.4f, cf.n - 1);
            g(c.q);
            val = op.f(c.q, g);
            g(c.q);
            if (post) {
                c.q->H(1);
                g(c.q);
                c.q->RZ(.3f, 0);
                g(c.q);
            }
            return implState(c.q);
        };
        double want = 0;
        const std::vector<cd> ref = program(true, want); // (with nothing ever in flight)
        under(b, [&] {
            double val = 0;
            const std::vector<cd> got = program(false, val);
            MC_CHECK(got.size() == ref.size() && std::fabs(val - want) < 1e-3, "returned %.5f; %.5f when every gate is finished first", val, want);
            double d = 0;
            for (size_t k = 0; k < got.size(); ++k)
                d = std::max(d, std::abs(got[k] - ref[k]));
            MC_CHECK(d < 1e-3, "the state differs by %.4g from that when every gate is finished first", d);
            deviation(d);
        });
    };
    s.describe = [=](u64 i) {
        static const char* pre[] = { "RX(0) and H(1)", "CNOT(1,0)", "RY(top)" };
        return fmt("%s in flight; %s%s", pre[i % 3], i / 3 % 2 ? "then gates; " : "", (*A)[i / 6].name.c_str());
    };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C11", argc, argv);
    const bool T = R.thorough();
    R.assumptions = { "threads are scheduled at synchronisation operations; between them, the vector-clock monitor excludes data races",
        "memory accesses inside the C library and the C++ runtime library are not monitored, except memcpy, memmove, memset and free",
        "sequentially consistent atomics" };
    R.explore(queue("all", "dfui", T ? 5 : 4, { 2 }));
    R.explore(queue("all", "dfun", 3, { T ? 4 : 3 }));
    R.explore(queue("spurious", "dfu", T ? 4 : 3, { 2, 2 }));
    R.explore(queue("long", "df", T ? 7 : 5, { 3 }));
    const Config small[] = { { "cpu", "2", 4, 2 }, { "cpu", "3", 2, 3 }, { "cpu", "1", 2, 2 }, { "cpu-sparse", "2", 4, 2 }, { "cpu-nonorm", "2", 4, 2 } };
    const Config big[] = { { "cpu", "0", 2, 2 }, { "cpu", "1", 2, 3 }, { "cpu", "0", 3, 2 } };
    for (auto& f : small) {
        R.explore(programs(f, 1, true, { T ? 3 : 2, 0, true }, true));
        const bool wide = f.stride[0] == '1'; // (every loop in several threads)
        if (T || (f.cores == 2 && !wide))
            R.explore(programs(f, 1, true, { 1 }, true));
        R.explore(programs(f, 2, true, { T ? 2 : 1, 0, true }, false));
        R.explore(programs(f, 3, T, { T ? 1 : 0, 0, wide && !T }, false));
    }
    for (auto& f : big) {
        R.explore(programs(f, 1, true, { (T ? 3 : 2) - (f.cores > 2), 0, true }, false));
        R.explore(programs(f, 2, true, { T ? 2 : 1, 0, true }, true));
    }
    const Config flight[] = { { "cpu", "4", 2, 4 }, { "cpu", "3", 4, 3 }, { "cpu-sparse", "4", 2, 4 }, { "cpu-nonorm", "4", 2, 4 }, { "pager1-cpu", "4", 2, 3 }, { "qunit-cpu", "5", 2, 4 } };
    for (auto& f : flight)
        R.explore(inFlight(f, { (T ? 2 : 1) - !strcmp(f.stack, "pager1-cpu"), 0, true }));
    const Config layers[] = { { "pager1-cpu", "2", 2, 2 }, { "pager1-cpu", "2", 3, 3 }, { "qunit-cpu", "2", 4, 2 }, { "qunit-pager1-cpu", "2", 2, 3 }, { "tensornetwork", "0", 2, 2 }, { "stabhybrid-cpu", "0", 2, 2 },
        { "qunit-stabhybrid-cpu", "0", 2, 2 }, { "bdt", "0", 2, 2 }, { "bdthybrid-cpu", "2", 4, 2 }, { "noisy-cpu", "2", 4, 2 } };
    for (auto& f : layers) {
        const int less = f.n > 2; // (many threads)
        const int less1 = less || (f.stride[0] == '0' && std::string(f.stack) != "bdt");
        R.explore(programs(f, 1, true, { (T ? 3 : 2) - less1, 0, true }, true));
        R.explore(programs(f, 2, true, { (T ? 2 : 1) - less, 0, true }, true));
    }
    return R.finish();
}
