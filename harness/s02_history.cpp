// Every short history of operations on a serializer against a list of the values it holds.
#include "common.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <cstdio>
#include <fstream>
#include <vector>
#ifndef STEPS
#define STEPS 4
#endif
typedef BinarySerializer BS;
struct Item { int kind; uint64_t v; }; // 0: 8 bits, 1: 64 bits, 2: text of three characters, 3: empty list
struct Model { std::vector<Item> all; size_t next = 0; };
static std::string textOf(uint64_t v) { std::string s; for (int i = 0; i < 3; i++) s += (char)(v >> (8 * i)); return s; }
static void put(BS& s, const Item& i) { if (i.kind == 4) s << 2.5f; else if (i.kind == 0) s << (uint8_t)i.v; else if (i.kind == 1) s.write(i.v); else if (i.kind == 2) s << textOf(i.v); else s.write(std::vector<int>()); }
static void take(BS& s, const Item& i) {
    if (i.kind == 4) { float r = 0; s >> r; ASSERT(r == 2.5f, "the next value is read (float)"); }
    else if (i.kind == 0) { uint8_t r = 0; s >> r; ASSERT(r == (uint8_t)i.v, "the next value is read (8 bits)"); }
    else if (i.kind == 1) { uint64_t r = 0; s.read(r); ASSERT(r == i.v, "the next value is read (64 bits)"); }
    else if (i.kind == 2) { std::string r = s.read<std::string>(); ASSERT(r == textOf(i.v), "the next value is read (text)"); }
    else { std::vector<int> r(2); s >> r; ASSERT(r.empty(), "the next value is read (empty list)"); }
}
static void check(BS& s, const Model& m) { BS all; for (auto& i : m.all) put(all, i); ASSERT(s.getData().size() == all.getData().size(), "the amount of data"); ASSERT(s.isIteratorValid() == (m.next < m.all.size()), "whether there is a value to be read"); bool eq = s.getData() == all.getData(); ASSERT(eq, "the data are the values in order of writing"); }
void sx_main() {
    const char* file = "s02.bin"; remove(file); BS s[2]; Model m[2], saved; bool isSaved = false; int c = 0;
#ifdef PREPARED
    // a serializer that already holds values, partly read, and possibly a file
    if (int pre = 1 + choose(3)) { for (int i = 0; i < pre; i++) { Item it{i % 3, 0x0102030405060708ull * (uint64_t)(i + 1)}; put(s[0], it); m[0].all.push_back(it); } int rd = choose(pre); for (int i = 0; i < rd; i++) take(s[0], m[0].all[m[0].next++]); if (choose(2)) { BS f; f << (uint8_t)1 << 2.5f << (uint8_t)3; f.saveToFile(file); saved.all = {Item{0, 1}, Item{4, 0}, Item{0, 3}}; isSaved = true; } sx_reach("prepared"); check(s[0], m[0]); }
#endif
    for (int step = 0; step < STEPS; step++) {
        int op = choose(9);
        if (op == 0 || op == 1) { Item i{op == 0 ? choose(2) : 2 + choose(2), sx_u64("v")}; put(s[c], i); m[c].all.push_back(i); }
        else if (op == 2) { if (m[c].all.empty()) return; if (m[c].next >= m[c].all.size()) { m[c].next = 0; sx_reach("around"); } take(s[c], m[c].all[m[c].next++]); }
        else if (op == 3) { s[c].clear(); m[c] = Model(); }
        else if (op == 4) { s[c].resetIterator(); m[c].next = 0; }
        else if (op == 5) { s[1 - c] = s[c]; m[1 - c] = m[c]; c = 1 - c; sx_reach("copied"); if (choose(2)) { s[1 - c].clear(); m[1 - c] = Model(); } }
        else if (op == 6) { s[c].saveToFile(file); saved = m[c]; isSaved = true; }
        else if (op == 7) { bool thrown = false; try { s[c].loadFromFile(file); } catch (const std::exception&) { thrown = true; } ASSERT(thrown == !isSaved, "a missing file is refused, an existing one is read"); if (!thrown) { m[c] = saved; m[c].next = 0; sx_reach("loaded"); } }
        else { s[c].resetIteratorIfNotValid(); if (m[c].next >= m[c].all.size()) m[c].next = 0; }
        check(s[c], m[c]);
    }
    check(s[1 - c], m[1 - c]);
    // what is left is read in order, then from the beginning
    for (int k = 0; k < 2; k++) { c = 1 - c; if (m[c].all.empty()) continue; for (size_t i = 0; i <= m[c].all.size(); i++) { if (m[c].next >= m[c].all.size()) m[c].next = 0; take(s[c], m[c].all[m[c].next++]); } check(s[c], m[c]); }
    remove(file); sx_reach("end");
}
