#pragma once
// Shadow of SwappedVector.h for the chain harness: the same container without its files (the real one is checked by harness/swapped.cpp).
#include <cstdint>
#include <cstddef>
#include <deque>
#include <string>
#include <vector>
#include <map>
#include <list>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <stdexcept>
#include "Serialization/BinaryInputStreamSerializer.h"
#include "Serialization/BinaryOutputStreamSerializer.h"
template <class T> class SwappedVector {
public:
  using value_type = T;
  class const_iterator {
  public:
    using difference_type = ptrdiff_t; using iterator_category = std::random_access_iterator_tag; using pointer = const T *; using reference = const T &; using value_type = T;
    const_iterator() = default; const_iterator(SwappedVector *v, size_t i) : v(v), i(i) {}
    bool operator!=(const const_iterator &o) const { return i != o.i; } bool operator<(const const_iterator &o) const { return i < o.i; } bool operator==(const const_iterator &o) const { return i == o.i; }
    const_iterator &operator++() { ++i; return *this; } const_iterator &operator--() { --i; return *this; } const_iterator &operator+=(difference_type n) { i += n; return *this; } const_iterator &operator-=(difference_type n) { i -= n; return *this; }
    const_iterator operator+(difference_type n) const { return const_iterator(v, i + n); } difference_type operator-(const const_iterator &o) const { return i - o.i; } const_iterator operator-(difference_type n) const { return const_iterator(v, i - n); }
    const T &operator*() const { return (*v)[i]; } const T *operator->() const { return &(*v)[i]; } size_t index() const { return i; }
  private:
    SwappedVector *v; size_t i;
  };
  SwappedVector() = default; SwappedVector(const SwappedVector &) = delete; SwappedVector &operator=(const SwappedVector &) = delete;
  bool open(const std::string &, const std::string &, size_t) { return true; } void close() {}
  bool empty() const { return d.empty(); } uint64_t size() const { return d.size(); } const_iterator begin() { return const_iterator(this, 0); } const_iterator end() { return const_iterator(this, d.size()); }
  const T &operator[](uint64_t i) { if (i >= d.size()) throw std::runtime_error("SwappedVector::operator[]"); return d[i]; }
  const T &front() { return operator[](0); } const T &back() { return operator[](d.size() - 1); } void clear() { d.clear(); } void pop_back() { d.pop_back(); } void push_back(const T &x) { d.push_back(x); } void replace(uint64_t i, const T &x) { d[i] = x; }
private:
  std::deque<T> d;
};
