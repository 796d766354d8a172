// Index encoding: invalid and boundary indices.
#include "common.h"
#include <GTMesh/UnstructuredMesh/UnstructuredMeshDefine.h>
#include <GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp>
#include <type_traits>
template<class T> static void check(T i, T j) {
    const T inv = INVALID_INDEX(T), top = (T)((T)1 << (sizeof(T) * 8 - 1));
    ASSERT(inv == (T)~(T)0, "the invalid index is the largest value");
    ASSERT(isInvalidIndex(i) == (i == inv), "only the largest value is the invalid index");
    ASSERT(isBoundaryIndex(i) == ((i & top) != 0), "an index is a boundary index iff its top bit is set");
    ASSERT(isBoundaryIndex(inv), "the invalid index carries the boundary mark");
    T b = makeBoundaryIndex(i);
    ASSERT(isBoundaryIndex(b), "a made boundary index is a boundary index");
    T e = extractBoundaryIndex(b);
    ASSERT(!isBoundaryIndex(e), "an extracted index is not a boundary index");
    if (!isBoundaryIndex(i)) { ASSERT(e == i, "extract(make(i)) == i for every plain index"); ASSERT(extractBoundaryIndex(i) == i, "extracting leaves a plain index alone"); ASSERT(b != i, "a boundary index differs from the plain one"); if (i != (T)(top - 1)) ASSERT(!isInvalidIndex(b), "a boundary index of a usable position is not the invalid index"); }
    else { ASSERT(b == i, "marking twice changes nothing"); ASSERT(makeBoundaryIndex(e) == i, "make(extract(i)) == i for every boundary index"); }
    if (!isBoundaryIndex(i) && !isBoundaryIndex(j) && i != j) ASSERT(makeBoundaryIndex(i) != makeBoundaryIndex(j), "different positions give different boundary indices");
    if (!isBoundaryIndex(i) && !isBoundaryIndex(j)) ASSERT(makeBoundaryIndex(i) != j, "boundary and plain indices never meet");
    static_assert(std::is_same<decltype(makeBoundaryIndex(i)), T>::value && std::is_same<decltype(extractBoundaryIndex(i)), T>::value, "index type kept");
    ElementIndex<2, T> x(i), y(j), z(x);
    ASSERT(x.index == i && z.index == i && (T)x == i, "an element index holds its index");
    ASSERT((x == y) == (i == j), "element indices compare by value");
    z = y; ASSERT(z.index == j && y.index == j, "assignment of element indices"); z = i; ASSERT(z.index == i, "assignment of a plain index");
    ASSERT((ElementIndex<2, T>::getDimension() == 2 && ElementIndex<0, T>::getDimension() == 0), "dimension of an element index");
    sx_reach("end");
}
extern "C" void sx_main() {
    switch (sx_pick(sx_i64("type", 0, 3))) {
        case 0: check<uint64_t>(sx_u64("i"), sx_u64("j")); break;
        case 1: check<uint32_t>(sx_u32("i"), sx_u32("j")); break;
        case 2: check<uint16_t>(sx_u16("i"), sx_u16("j")); break;
        case 3: check<uint8_t>(sx_u8("i"), sx_u8("j")); break;
    }
}
