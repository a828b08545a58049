// C02: whole histories of gates and forced measurements, on every stack, against the reference.
#include "gates.hpp"
using namespace mc;
int main(int argc, char** argv)
{
    Runner R("C02", argc, argv);
    probsNow = true;
    const bool T = R.thorough();
    R.assumptions = { "histories are enumerated completely over the listed alphabet up to the stated depth; parameters are "
                      "fixed representatives" };
    for (const Stack& st : allStacks()) {
        const bool slow = st.slow > 1;
        Alphabet A2 = coreAlphabet(2, st.clifford), A3 = coreAlphabet(3, st.clifford);
        R.explore(seqSuite("hist2/" + st.name, st, 2, noPrep(), A2, T ? (slow ? 4 : 5) : slow ? 2 : 4));
        R.explore(seqSuite("hist3/" + st.name, st, 3, noPrep(), A3, T ? (slow ? 3 : 4) : slow ? 2 : 3));
        R.explore(seqSuite("hist3p/" + st.name, st, 3, prepMenu(3, st.clifford, true), A3, T ? 3 : slow ? 1 : 2));
    }
    return R.finish();
}
