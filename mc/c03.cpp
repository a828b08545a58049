// C03: measurement.  Every call x every placement x every start state x every answer of the random generator on a grid:
// the outcome is possible, the state collapses to exactly the projection on it, nothing changes when the call says so,
// and the outcome frequencies over the complete choice tree are the Born probabilities.
#include "choice.hpp"
using namespace mc;

struct MCall {
    std::string name;
    // performs the call, returns the outcome as a basis mask value
    std::function<u64(Ctx&)> call;
    // the event: which basis states agree with outcome o
    std::function<bool(u64 basis, u64 o)> agrees;
    bool collapses = true;
    bool sampled = true; // outcome drawn (otherwise forced)
    std::function<bool(Ctx&)> possible; // precondition on the reference state (forced outcomes)
    std::function<void(Ref&, u64)> after; // further effect on the reference, after projection
    std::function<bool(u64)> outcomeOk;
};

static u64 lo(bitCapInt b) { return (u64)b; }

static std::vector<MCall> calls(int n, const Stack& st)
{
    std::vector<MCall> C;
    auto add = [&](const std::string& nm, std::function<u64(Ctx&)> f, std::function<bool(u64, u64)> ag) -> MCall& {
        MCall m;
        m.name = nm;
        m.call = f;
        m.agrees = ag;
        C.push_back(m);
        return C.back();
    };
    const u64 all = (1ULL << n) - 1;
    for (int t = 0; t < n; ++t) {
        auto ag = [=](u64 b, u64 o) { return ((b >> t) & 1) == o; };
        add(fmt("M(%d)", t), [=](Ctx& c) { return (u64)c.q->M(t); }, ag);
        for (int v = 0; v < 2; ++v) {
            add(fmt("ForceM(%d,%d,doForce=0,doApply=0)", t, v), [=](Ctx& c) { return (u64)c.q->ForceM(t, v, false, false); }, ag).collapses = false;
            add(fmt("ForceM(%d,%d,doForce=0,doApply=1)", t, v), [=](Ctx& c) { return (u64)c.q->ForceM(t, v, false, true); }, ag);
            for (int ap = 0; ap < 2; ++ap) {
                MCall& m = add(fmt("ForceM(%d,%d,doForce=1,doApply=%d)", t, v, ap), [=](Ctx& c) { return (u64)c.q->ForceM(t, v, true, ap); }, ag);
                m.sampled = false;
                m.collapses = ap;
                m.possible = [=](Ctx& c) { return c.r.prob(1ULL << t, v ? 1ULL << t : 0) > 0.02; };
                m.outcomeOk = [=](u64 o) { return o == (u64)v; };
            }
            MCall& m = add(fmt("SetBit(%d,%d)", t, v), [=](Ctx& c) {
                // the outcome is not reported: read it off the number of X corrections in the state afterwards
                c.q->SetBit(t, v);
                return (u64)2;
            }, ag);
            m.sampled = false;
            m.collapses = false;
            m.outcomeOk = [](u64) { return true; };
            m.after = [=](Ref&, u64) {};
        }
    }
    for (int s = 0; s < n; ++s)
        for (int l = 1; s + l <= n; ++l) {
            u64 pm = (1ULL << l) - 1;
            auto ag = [=](u64 b, u64 o) { return ((b >> s) & pm) == o; };
            add(fmt("MReg(%d,%d)", s, l), [=](Ctx& c) { return lo(c.q->MReg(s, l)); }, ag);
            for (u64 v = 0; v <= pm; ++v) {
                MCall& m = add(fmt("ForceMReg(%d,%d,%llu)", s, l, v), [=](Ctx& c) { return lo(c.q->ForceMReg(s, l, v, true, true)); }, ag);
                m.sampled = false;
                m.possible = [=](Ctx& c) { return c.r.prob(pm << s, v << s) > 0.02; };
                m.outcomeOk = [=](u64 o) { return o == v; };
            }
            add(fmt("ForceMReg(%d,%d,0,doForce=0)", s, l), [=](Ctx& c) { return lo(c.q->ForceMReg(s, l, ZERO_BCI, false, true)); }, ag);
            add(fmt("ForceMReg(%d,%d,0,doForce=0,doApply=0)", s, l), [=](Ctx& c) { return lo(c.q->ForceMReg(s, l, ZERO_BCI, false, false)); }, ag).collapses = false;
        }
    add("MAll()", [=](Ctx& c) { return lo(c.q->MAll()); }, [=](u64 b, u64 o) { return b == o; });
    for (int k = 1; k <= n; ++k)
        placements(n, k, [&](const std::vector<int>& p) {
            Bits b(p.begin(), p.end());
            u64 mask = 0;
            for (int x : p)
                mask |= 1ULL << x;
            auto ag = [=](u64 x, u64 o) { return (x & mask) == o; };
            add("M(" + bitsStr(p) + ")", [=](Ctx& c) { return lo(c.q->M(b)); }, ag);
            add("ForceM(" + bitsStr(p) + ",{},doApply=0)", [=](Ctx& c) { return lo(c.q->ForceM(b, std::vector<bool>(), false)); }, ag).collapses = false;
            for (u64 v = 0; v < (1ULL << k); ++v) {
                std::vector<bool> vals;
                u64 val = 0;
                for (int j = 0; j < k; ++j) {
                    vals.push_back((v >> j) & 1);
                    if ((v >> j) & 1)
                        val |= 1ULL << p[j];
                }
                MCall& m = add("ForceM(" + bitsStr(p) + fmt(",values=%llu)", v), [=](Ctx& c) { return lo(c.q->ForceM(b, vals, true)); }, ag);
                m.sampled = false;
                m.possible = [=](Ctx& c) { return c.r.prob(mask, val) > 0.02; };
                m.outcomeOk = [=](u64 o) { return o == val; };
            }
        });
    if (st.alu)
        for (u64 mask = 1; mask <= all; ++mask) {
            auto ag = [=](u64 b, u64 o) { return (u64)(__builtin_popcountll(b & mask) & 1) == o; };
            add(fmt("MParity(%llu)", mask), [=](Ctx& c) { return (u64)std::dynamic_pointer_cast<QParity>(c.q)->MParity(mask); }, ag);
            for (int v = 0; v < 2; ++v) {
                MCall& m = add(fmt("ForceMParity(%llu,%d)", mask, v), [=](Ctx& c) { return (u64)std::dynamic_pointer_cast<QParity>(c.q)->ForceMParity(mask, v, true); }, ag);
                m.sampled = false;
                m.possible = [=](Ctx& c) { return c.r.probIf([=](u64 b) { return (u64)(__builtin_popcountll(b & mask) & 1) == (u64)v; }) > 0.02; };
                m.outcomeOk = [=](u64 o) { return o == (u64)v; };
            }
        }
    return C;
}

// one execution of prep + call with the given answers; checks outcome and state; returns (outcome, draws)
static Outcome once(const Stack& st, int n, const Alphabet& prep, const MCall& m, const Answers& ans)
{
    Ctx c;
    c.start(st, n);
    for (auto& o : prep)
        o.f(c);
    installAnswers(c.rng, ans);
    u64 o = m.call(c);
    const Outcome asked = outcome("", c.rng);
    if (m.name.compare(0, 7, "SetBit(") == 0) {
        // a mixture over the two outcomes: the state must be X^(o!=v) P_o psi for some possible o
        int t = m.name[7] - '0', v = m.name[9] - '0';
        std::vector<cd> s = implState(c.q);
        double best = 9;
        int bo = -1;
        for (int oo = 0; oo < 2; ++oo) {
            if (c.r.prob(1ULL << t, oo ? 1ULL << t : 0) < 1e-6)
                continue;
            Ref r = c.r;
            r.project(1ULL << t, oo ? 1ULL << t : 0);
            if (oo != v)
                r.g1(t, mX());
            double d = distance(s, r.a);
            if (d < best)
                best = d, bo = oo;
        }
        MC_CHECK(best < c.tol, "%s: the state afterwards is neither of the two possible ones\n   got %s", m.name.c_str(), show(s).c_str());
        return { "-", asked.draws, asked.devices };
    }
    double p = c.r.probIf([&](u64 b) { return m.agrees(b, o); });
    MC_CHECK(p > 1e-7, "%s returned %llu, an outcome of probability %.3g", m.name.c_str(), o, p);
    if (m.outcomeOk)
        MC_CHECK(m.outcomeOk(o), "%s returned %llu instead of the forced result", m.name.c_str(), o);
    if (m.collapses)
        c.r.projectIf([&](u64 b) { return m.agrees(b, o); });
    compareState(c.q, c.r, c.tol, fmt("state after %s=%llu", m.name.c_str(), o).c_str());
    visited(mix(c.r.hash(), o));
    return { fmt("%llu", o), asked.draws, asked.devices };
}

static Suite suite(const Stack& st, int n, const std::vector<Alphabet>& preps)
{
    Suite s;
    s.name = fmt("measure%d/", n) + st.name;
    s.env = st.env;
    auto P = std::make_shared<std::vector<Alphabet>>(preps);
    auto C = std::make_shared<std::vector<MCall>>(calls(n, st));
    s.count = P->size() * C->size();
    const Stack* sp = &st;
    s.run = [=](u64 i) {
        const Alphabet& prep = (*P)[i / C->size()];
        const MCall& m = (*C)[i % C->size()];
        Stack exact = *sp;
        exact.randPhase = false;
        if (m.possible) {
            Ctx c;
            c.start(exact, n);
            for (auto& o : prep)
                o.f(c);
            if (!m.possible(c))
                return;
        }
        // as configured (random global phase): a few answers
        for (double a : { 1e-5, 0.37, 0.63, 0.99999 })
            once(*sp, n, prep, m, { { a, a, a, a }, { a, a, a, a } });
        transition(4);
        if (!m.sampled)
            return;
        Ref before;
        {
            Ctx c;
            c.start(exact, n);
            for (auto& o : prep)
                o.f(c);
            before = c.r;
        }
        ChoiceTree t = exploreChoices([&](const Answers& a) { return once(exact, n, prep, m, a); });
        if (t.truncated)
            return;
        for (u64 o = 0; o < (1ULL << n); ++o) {
            double p = before.probIf([&](u64 b) { return m.agrees(b, o); });
            auto it = t.freq.find(fmt("%llu", o));
            double f = it == t.freq.end() ? 0 : it->second;
            MC_CHECK(std::fabs(p - f) <= t.tol + 1e-3, "%s: outcome %llu has frequency %.4f over the complete choice tree (%llu runs), but probability %.4f", m.name.c_str(), o, f, t.runs, p);
        }
    };
    s.describe = [=](u64 i) { return (*P)[i / C->size()][0].name + "; " + (*C)[i % C->size()].name; };
    return s;
}

int main(int argc, char** argv)
{
    Runner R("C03", argc, argv);
    probsNow = true;
    const bool T = R.thorough();
    R.assumptions = { "random answers are enumerated on midpoint grids (64 points for one draw, 16 x 16 for two, 8^3 for three)",
        "all other randomness than the scripted generator is absent (hardware random numbers are switched off)" };
    for (const Stack& st : allStacks()) {
        const bool slow = st.slow > 1;
        std::vector<Alphabet> L2 = prepMenu(2, st.clifford, !T && slow);
        R.explore(suite(st, 2, L2));
        if (T || !slow)
            R.explore(suite(st, 3, prepMenu(3, st.clifford, slow || (!T && st.name != "cpu" && st.name != "qunit-cpu-phase"))));
    }
    return R.finish();
}
