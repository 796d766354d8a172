// Subelement containers, with and without reserved capacity.
#include "common.h"
#include <GTMesh/UnstructuredMesh/MeshElements/MeshElement.h>
#ifndef STEPS
#define STEPS 4
#endif
typedef uint64_t I;
template<unsigned R> static void check() {
    MeshElement<3, 2, I, double, R> elem(7);
    SubelementContainer<I, R>& s = elem.getSubelements(); const MeshElement<3, 2, I, double, R>& celem = elem; const SubelementContainer<I, R>& cs = celem.getSubelements();
    I model[STEPS + 1]; unsigned n = 0;
    ASSERT(s.getNumberOfSubElements() == 0 && s.size() == 0 && s.begin() == s.end(), "a new container is empty");
    for (int k = 0; k < STEPS; k++) {
        I x = sx_u64("x"); int op = (int)sx_pick(sx_i64("op", 0, 2));
        if (op < 2) {
            bool thrown = false;
            try { if (op) s.push_back(x); else s.addSubelement(x); } catch (const std::runtime_error&) { thrown = true; }
            ASSERT(thrown == (R != 0 && n >= R), "adding is refused exactly when the reserve is full");
            if (!thrown) model[n++] = x; else sx_reach("full");
        } else {
            unsigned at = (unsigned)sx_pick(sx_i64("at", 0, STEPS)); if (R == 0 && at >= n) continue;
            bool thrown = false;
            try { s.removeSubelement((unsigned char)at); } catch (const std::runtime_error&) { thrown = true; }
            ASSERT(thrown == (at >= n), "removing is refused exactly for a position past the end");
            if (!thrown) { for (unsigned i = at; i + 1 < n; i++) model[i] = model[i + 1]; n--; sx_reach("removed"); }
        }
        ASSERT(s.getNumberOfSubElements() == n && s.size() == n && cs.size() == n, "number of subelements");
        unsigned i = 0;
        for (I e : s) { ASSERT(i < n && e == model[i], "iteration gives the subelements in order"); i++; } ASSERT(i == n, "iteration gives every subelement");
        i = 0; for (I e : cs) { ASSERT(i < n && e == model[i], "iteration gives the subelements in order"); i++; } ASSERT(i == n, "iteration gives every subelement");
        ASSERT((unsigned)(s.cend() - s.cbegin()) == n && (unsigned)(cs.cend() - cs.cbegin()) == n && (unsigned)(s.end() - s.begin()) == n, "iterators delimit the subelements");
        for (i = 0; i < n; i++) ASSERT(s[i] == model[i] && cs[i] == model[i], "access by position");
    }
    auto copy = elem; ASSERT(copy.getIndex() == 7 && copy.getSubelements().size() == n, "copies keep their subelements");
    for (unsigned i = 0; i < n; i++) ASSERT(copy.getSubelements()[i] == model[i], "copies keep their subelements");
    sx_reach("end");
}
// containers longer than the range of small counters: one removal and one addition at the far end
template<unsigned R> static void checkLong(unsigned n0) {
    SubelementContainer<I, R> s; std::vector<I> model; I x = sx_u64("x");
    for (unsigned k = 0; k < n0; k++) { I v = k % 3 ? k : x + k; if (k % 2) s.push_back(v); else s.addSubelement(v); model.push_back(v); }
    for (int rep = 0; rep < 2; rep++) { unsigned base = choose(3) * (n0 / 2); unsigned at = base + (unsigned)sx_pick(sx_i64("at", 0, 2)); if (at >= model.size()) at = (unsigned)model.size() - 1; s.removeSubelement(at); model.erase(model.begin() + at); }
    I y = sx_u64("y"); s.addSubelement(y); model.push_back(y);
    ASSERT(s.size() == model.size() && s.getNumberOfSubElements() == model.size(), "number of subelements"); unsigned i = 0; for (I e : s) { ASSERT(i < model.size() && e == model[i], "iteration gives the subelements in order"); i++; } ASSERT(i == model.size(), "iteration gives every subelement");
    if (R) { while (model.size() < R) { s.push_back(7); model.push_back(7); } bool thrown = false; try { s.push_back(8); } catch (const std::runtime_error&) { thrown = true; } ASSERT(thrown && s.size() == R, "adding is refused exactly when the reserve is full"); }
    sx_reach("long"); sx_reach("end");
}
extern "C" void sx_main() {
#ifdef LONG
    switch (choose(2)) { case 0: checkLong<0>(choose(2) ? 300 : 140); break; case 1: checkLong<300>(choose(2) ? 290 : 140); break; } return;
#endif
    switch (sx_pick(sx_i64("reserve", 0, 2))) { case 0: check<0>(); break; case 1: check<2>(); break; case 2: check<3>(); break; }
}
