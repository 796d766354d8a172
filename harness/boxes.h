#ifndef BOXES_H
#define BOXES_H
#include <vector>
// containers of the user: by size and subscript, of constant size, and in the manner of TNL
template<class T> struct Idx { std::vector<T> h; size_t size() const { return h.size(); } void resize(size_t n) { h.resize(n); } T& operator[](size_t i) { return h[i]; } const T& operator[](size_t i) const { return h[i]; } };
template<class T> struct Fix { std::vector<T> h = std::vector<T>(3); unsigned size() const { return 3; } T& operator[](size_t i) { return h[i]; } const T& operator[](size_t i) const { return h[i]; } };
template<class T> struct Tnl { std::vector<T> h; int getSize() const { return (int)h.size(); } void setSize(int n) { h.resize((size_t)n); } T& operator[](int i) { return h[(size_t)i]; } const T& operator[](int i) const { return h[(size_t)i]; } };
template<class T> struct TnlData : Tnl<T> { const T* getData() const { return this->h.data(); } T* getData() { return this->h.data(); } };
#endif
