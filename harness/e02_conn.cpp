// Connections of a face to its two cells: one symbolic history of operations against a model.
#include "common.h"
#include <GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h>
#ifndef STEPS
#define STEPS 2
#endif
#ifndef IDX
#define IDX uint64_t
#define SXI sx_u64
#endif
typedef IDX I;
struct Model { I l, r, nl, nr; };
static const I INV = (I)~(I)0;
template<class C> static void same(const C& c, const Model& m, const char* what) {
    ASSERT(c.getCellLeftIndex() == m.l, what); ASSERT(c.getCellRightIndex() == m.r, what);
    ASSERT(c.cellsOK() == (m.l != INV && m.r != INV), "cellsOK iff both cells are set");
}
static void same2(const CellBoundaryConnection<I>& c, const Model& m, const char* what) {
    same(c, m, what); ASSERT(c.getNextBElemWRTCL() == m.nl, what); ASSERT(c.getNextBElemWRTCR() == m.nr, what);
}
static void queries(const CellBoundaryConnection<I>& c, const Model& m) {
    I q = SXI("query");
    bool thrown = false; I o = 0;
    try { o = c.getOtherCellIndex(q); } catch (const std::runtime_error&) { thrown = true; }
    bool known = q != INV && (q == m.l || q == m.r);
    ASSERT(thrown == !known, "the other cell is refused exactly for a cell not connected to the element");
    if (!thrown) { if (m.l != m.r) ASSERT(o == (q == m.l ? m.r : m.l), "the other cell is the one on the other side"); else ASSERT(o == q, "the other cell is the one on the other side"); }
    thrown = false;
    try { o = c.getNextBElem(q); } catch (const std::runtime_error&) { thrown = true; }
    ASSERT(thrown == !known, "the next element is refused exactly for a cell not connected to the element");
    if (!thrown && m.l != m.r) ASSERT(o == (q == m.l ? m.nl : m.nr), "the next element belongs to the given cell");
    if (!thrown && m.l == m.r) ASSERT(o == m.nl || o == m.nr, "the next element belongs to the given cell");
    same2(c, m, "queries change nothing");
    if (known) sx_reach("known"); else sx_reach("unknown");
}
extern "C" void sx_main() {
    Model m; int init = (int)sx_pick(sx_i64("init", 0, 2));
    m.l = m.r = m.nl = m.nr = INV;
    if (init >= 1) { m.l = SXI("l"); m.r = SXI("r"); }
    if (init == 2) { m.nl = SXI("nl"); m.nr = SXI("nr"); }
    CellBoundaryConnection<I> c0, c1(m.l, m.r), c2(m.l, m.r, m.nl, m.nr), &c = init == 0 ? c0 : init == 1 ? c1 : c2;
    same2(c, m, "construction stores the indices, missing ones are invalid");
    CellConnection<I> base(m.l, m.r); same(base, m, "construction stores the indices"); base.swapCellsLR(); ASSERT(base.getCellLeftIndex() == m.r && base.getCellRightIndex() == m.l, "swapping exchanges the cells");
    for (int s = 0; s < STEPS; s++) {
        int op = (int)sx_pick(sx_i64("op", 0, 6)); I x = SXI("x"), y = SXI("y");
        switch (op) {
            case 0: c.setCellLeftIndex(x); m.l = x; break;
            case 1: c.setCellRightIndex(x); m.r = x; break;
            case 2: { bool ok = c.setCellIndex(x), want = x != INV && (m.l == INV || m.r == INV); ASSERT(ok == want, "setCellIndex succeeds iff the index is valid and a side is free"); if (want) { if (m.l == INV) m.l = x; else m.r = x; } break; }
            case 3: {
                bool ok = c.setNextBElem(x, y), want = true;
                if (y == INV) want = false; else if (y == m.l) m.nl = x; else if (y == m.r) m.nr = x; else if (m.l == INV) { m.l = y; m.nl = x; } else if (m.r == INV) { m.r = y; m.nr = x; } else want = false;
                ASSERT(ok == want, "setNextBElem succeeds iff the cell is connected or a side is free"); break; }
            case 4: c.setNextBElemWRTCL(x); m.nl = x; break;
            case 5: c.setNextBElemWRTCR(x); m.nr = x; break;
            case 6: { c.swapCellsLR(); I t = m.l; m.l = m.r; m.r = t; t = m.nl; m.nl = m.nr; m.nr = t; break; }
        }
        same2(c, m, "state after an operation");
    }
    queries(c, m);
    CellBoundaryConnection<I> copy(c); same2(copy, m, "copy");
    sx_reach("end");
}
