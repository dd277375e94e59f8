#pragma once
// Shadow of parallel_hashmap: the third-party hash tables are modelled as association lists with the same interface.
#include <functional>
#include <utility>
#include <list>
#include <stdexcept>
#include <cstddef>
namespace phmap {
template <class K, class V> class AssocMap {
public:
  typedef K key_type; typedef V mapped_type; typedef std::pair<const K, V> value_type; typedef std::list<value_type> L; typedef typename L::iterator iterator; typedef typename L::const_iterator const_iterator; typedef size_t size_type;
  iterator begin() { return l.begin(); } iterator end() { return l.end(); } const_iterator begin() const { return l.begin(); } const_iterator end() const { return l.end(); } const_iterator cbegin() const { return l.begin(); } const_iterator cend() const { return l.end(); }
  size_t size() const { return l.size(); } bool empty() const { return l.empty(); } void clear() { l.clear(); } void reserve(size_t) {}
  iterator find(const K &k) { for (iterator i = l.begin(); i != l.end(); ++i) if (i->first == k) return i; return l.end(); }
  const_iterator find(const K &k) const { for (const_iterator i = l.begin(); i != l.end(); ++i) if (i->first == k) return i; return l.end(); }
  size_t count(const K &k) const { return find(k) != end(); } bool contains(const K &k) const { return find(k) != end(); }
  V &operator[](const K &k) { iterator i = find(k); if (i != l.end()) return i->second; l.push_back(value_type(k, V())); return l.back().second; }
  V &at(const K &k) { iterator i = find(k); if (i == l.end()) throw std::out_of_range("phmap at()"); return i->second; }
  const V &at(const K &k) const { const_iterator i = find(k); if (i == l.end()) throw std::out_of_range("phmap at()"); return i->second; }
  std::pair<iterator, bool> insert(const value_type &v) { iterator i = find(v.first); if (i != l.end()) return std::pair<iterator, bool>(i, false); l.push_back(v); return std::pair<iterator, bool>(--l.end(), true); }
  template <class A, class B> std::pair<iterator, bool> emplace(A a, B b) { return insert(value_type(K(a), V(b))); }
  size_t erase(const K &k) { iterator i = find(k); if (i == l.end()) return 0; l.erase(i); return 1; }
  iterator erase(iterator i) { return l.erase(i); } void swap(AssocMap &o) { l.swap(o.l); }
  template <class Ar> bool phmap_load(Ar &) { return false; } template <class Ar> bool phmap_dump(Ar &) const { return false; }
private:
  L l;
};
template <class K, class V, class H = std::hash<K>, class... R> class flat_hash_map : public AssocMap<K, V> {};
template <class K, class V, class H = std::hash<K>, class... R> class parallel_flat_hash_map : public AssocMap<K, V> {};
}
