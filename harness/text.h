// Reading back exported text, and capture of the standard outputs.
#ifndef TEXT_H
#define TEXT_H
#include "common.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <vector>
#include <cstdio>
#ifndef SX_STREAMS_H
#include <unistd.h>
template<class F> std::string captureStdout(F f) { std::cout.flush(); fflush(stdout); int s = dup(1); FILE* t = tmpfile(); dup2(fileno(t), 1); f(); std::cout.flush(); fflush(stdout); dup2(s, 1); close(s); rewind(t); std::string r; for (int c; (c = fgetc(t)) != EOF;) r += (char)c; fclose(t); return r; }
#else
template<class F> std::string captureStdout(F f) { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); f(); std::cout.rdbuf(b); return o.str(); }
#endif
template<class F> std::string captureStderr(F f) { std::ostringstream o; auto* b = std::cerr.rdbuf(o.rdbuf()); f(); std::cerr.rdbuf(b); return o.str(); }
inline std::string fileText(const char* n) { std::ifstream f(n); std::stringstream s; if (!f.is_open()) return "<missing>"; s << f.rdbuf(); return s.str(); }
// a reader of the text of one value; ok turns false at the first difference
struct Rd {
    std::string t; size_t p = 0; bool ok = true; const char* what = "text of a value";
    explicit Rd(const std::string& s) : t(s) {}
    void fail() { ok = false; }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t')) p++; }
    bool is(char c) { ws(); return p < t.size() && t[p] == c; }
    void want(char c) { if (!ok) return; if (is(c)) p++; else fail(); }
    void want(const char* s) { if (!ok) return; ws(); for (; *s; s++) { if (p < t.size() && t[p] == *s) p++; else { fail(); return; } } }
    std::string text(char q = '"') { std::string r; want(q); while (ok) { if (p >= t.size()) { fail(); break; } char c = t[p++]; if (c == q) break; if (c == '\\') { if (p >= t.size()) { fail(); break; } c = t[p++]; if (c != q && c != '\\') { fail(); break; } } r += c; } return r; }
    std::string word() { ws(); std::string r; while (p < t.size()) { char c = t[p]; if (c == ' ' || c == '\n' || c == '\t' || c == ',' || c == ':' || c == ']' || c == '}' || c == ')' || c == '>' || c == '=') break; r += c; p++; } if (r.empty()) fail(); return r; }
    template<class T> T num() { T x = 0; if (!ok) return x; std::string w = word(); if (std::is_unsigned<T>::value) { std::istringstream g(w); long long y; if ((g >> y) && y < 0) fail(); } std::istringstream s(w); s >> x; if (s.fail()) fail(); char c; if (s >> c) fail(); return x; }
    void end() { ws(); if (p != t.size()) fail(); }
};
#endif
