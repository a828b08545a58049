// Exhaustive enumeration of the random answers given to one call: every draw takes every value of a midpoint grid, so the
// runs form the complete choice tree of the call.  Frequencies over the tree approximate the outcome probabilities with an
// error of at most (draws)/(2K) per threshold decision.
#pragma once
#include "gates.hpp"
namespace mc {
struct ChoiceTree {
    std::map<std::string, double> freq; // outcome -> weight
    u64 runs = 0;
    double tol = 0;
    bool truncated = false;
};
struct Answers {
    std::vector<double> draws; // successive draws from the simulator's own generator
    std::vector<double> devices; // one per std::random_device constructed during the call (first draw of its generators)
};
struct Outcome {
    std::string key;
    u64 draws = 0, devices = 0;
};
// `once(answers)` builds a fresh simulator, installs the answers right before the call under test (installAnswers), performs
// the call and returns the outcome with the numbers of answers asked for.
inline void installAnswers(Rng& rng, const Answers& a)
{
    rng.script(a.draws, 0.5);
    rdScript.script(a.devices, 0.5);
}
inline Outcome outcome(const std::string& key, const Rng& rng) { return { key, rng.consumed(), (u64)rdScript.constructed }; }

inline ChoiceTree exploreChoices(const std::function<Outcome(const Answers&)>& once, u64 maxDepth = 4)
{
    ChoiceTree T;
    auto first = once({});
    u64 d = first.draws + first.devices;
    const int K = d <= 1 ? 64 : d == 2 ? 16 : d == 3 ? 8 : 5;
    Answers pre;
    std::function<void(double)> rec = [&](double w) {
        // run with this prefix; if the call asks for more answers, branch on the next one
        Outcome r = once(pre);
        ++T.runs;
        const u64 depth = pre.draws.size() + pre.devices.size();
        std::vector<double>* grow =
            r.devices > pre.devices.size() ? &pre.devices : r.draws > pre.draws.size() ? &pre.draws : nullptr;
        if (grow && depth < maxDepth) {
            for (int k = 0; k < K; ++k) {
                grow->push_back((k + 0.5) / K);
                rec(w / K);
                grow->pop_back();
            }
            return;
        }
        if (grow)
            T.truncated = true;
        T.freq[r.key] += w;
        T.tol = std::max(T.tol, depth * 1.0 / K);
    };
    rec(1);
    transition(T.runs);
    return T;
}
} // namespace mc
