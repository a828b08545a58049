// C01: every gate call does what its definition says, on every placement, from every kind of start state, on every stack.
// Enumerated: (stack) x (start state menu) x (API call with every placement/argument of its menu), one fresh simulator
// per case, compared with the dense reference up to the unobservable global phase.
#include "gates.hpp"
using namespace mc;
int main(int argc, char** argv)
{
    Runner R("C01", argc, argv);
    probsNow = true;
    if (!Rng::selfTest()) {
        fprintf(stderr, "RNG control self-test failed\n");
        return 4;
    }
    R.assumptions = { "gate parameters come from a fixed menu of generic and special angles; placements and start states are "
                      "enumerated completely",
        "amplitudes are compared in single precision with tolerance 1e-3 up to a global phase" };
    const bool T = R.thorough();
    for (const Stack& st : allStacks()) {
        GateOpts o;
        o.clifford = st.clifford;
        const bool light = !T && st.slow > 1;
        Alphabet A = gateAlphabet(3, o);
        if (!st.clifford) {
            Alphabet h = hamiltonianAlphabet(3);
            A.insert(A.end(), h.begin(), h.end());
        }
        R.explore(prepOpSuite("gates3/" + st.name, st, 3, prepMenu(3, st.clifford, light), A));
        Alphabet B = gateAlphabet(2, o);
        if (T)
            R.explore(seqSuite("gates2x2/" + st.name, st, 2, prepMenu(2, st.clifford, true), B, 2));
        // three controls, mixed polarities, and up to eight pages
        std::vector<Alphabet> few, menu = prepMenu(4, st.clifford, true);
        for (size_t i = 0; i < menu.size(); ++i)
            if (T || i % 31 == 9)
                few.push_back(menu[i]);
        if (!T || st.slow <= 1)
            R.explore(prepOpSuite("gates4/" + st.name, st, 4, few, gateAlphabet(4, o)));
    }
    return R.finish();
}
