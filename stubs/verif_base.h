// Analysis-only stand-in for the C++ standard library: the same interfaces, with bodies simple enough to be interpreted.
// Never compiled into anything that runs.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include <math.h>
extern "C" {
void verif_unsupported(const char *what);          // ends the path undecided
const char *verif_str_cat(const char *a, const char *b);
const char *verif_str_char(const char *a, int c);
const char *verif_str_num(long n);
const char *verif_str_copy(const char *a);
const char *verif_str_until(const char *a, int c);  // text before the first c (all of it if there is none)
const char *verif_str_after(const char *a, int c);  // text behind the first c, null if there is none
const char *verif_str_sub(const char *a, unsigned long b, unsigned long n);
long verif_str_find(const char *a, int c, unsigned long from);
int verif_str_cmp(const char *a, const char *b);
unsigned long verif_str_len(const char *a);
int verif_str_empty(const char *a);
}
inline void *operator new(size_t, void *p) noexcept { return p; }
inline void *operator new[](size_t, void *p) noexcept { return p; }
#ifndef VERIF_CAP
#define VERIF_CAP 48
#endif
namespace std {
typedef ::size_t size_t;
typedef decltype(nullptr) nullptr_t;
typedef long ptrdiff_t;
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T &> { typedef T type; };
template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> struct remove_const { typedef T type; };
template <class T> struct remove_const<const T> { typedef T type; };
template <class T> T &&forward(typename remove_reference<T>::type &t) noexcept { return static_cast<T &&>(t); }
template <class T> T &&forward(typename remove_reference<T>::type &&t) noexcept { return static_cast<T &&>(t); }
template <class T> typename remove_reference<T>::type &&move(T &&t) noexcept { return static_cast<typename remove_reference<T>::type &&>(t); }
template <class T> void swap(T &a, T &b) { T c(std::move(a)); a = std::move(b); b = std::move(c); }
template <class E> class initializer_list {
  const E *b; size_t n;
public:
  typedef const E *iterator; typedef const E *const_iterator;
  constexpr initializer_list() : b(0), n(0) {}
  constexpr initializer_list(const E *b_, size_t n_) : b(b_), n(n_) {}
  constexpr size_t size() const { return n; }
  constexpr const E *begin() const { return b; }
  constexpr const E *end() const { return b + n; }
};
template <class A, class B> struct pair {
  typedef A first_type; typedef B second_type;
  A first; B second;
  pair() : first(), second() {}
  pair(const pair &) = default;
  pair(pair &&) = default;
  pair(const A &a, const B &b) : first(a), second(b) {}
  template <class U, class V> pair(U &&u, V &&v) : first(std::forward<U>(u)), second(std::forward<V>(v)) {}
  template <class U, class V> pair(const pair<U, V> &p) : first(p.first), second(p.second) {}
  pair &operator=(const pair &) = default;
  pair &operator=(pair &&) = default;
};
template <class A, class B> bool operator==(const pair<A, B> &x, const pair<A, B> &y) { return x.first == y.first && x.second == y.second; }
template <class A, class B> bool operator!=(const pair<A, B> &x, const pair<A, B> &y) { return !(x == y); }
template <class A, class B> bool operator<(const pair<A, B> &x, const pair<A, B> &y) { return x.first < y.first || (!(y.first < x.first) && x.second < y.second); }
template <class T> struct decay_ { typedef typename remove_const<typename remove_reference<T>::type>::type type; };
template <class A, class B> pair<typename decay_<A>::type, typename decay_<B>::type> make_pair(A &&a, B &&b) {
  return pair<typename decay_<A>::type, typename decay_<B>::type>(std::forward<A>(a), std::forward<B>(b));
}
template <class T> const T &min(const T &a, const T &b) { return b < a ? b : a; }
template <class T> const T &max(const T &a, const T &b) { return a < b ? b : a; }
template <class T> struct less { bool operator()(const T &a, const T &b) const { return a < b; } };
template <class T> struct hash {};
template <class T> struct equal_to {};
template <class T> struct allocator {};

template <class T> class vector {
  T *b; size_t n;
  void room(size_t k) {
    if (k > VERIF_CAP) verif_unsupported("long vector");
    if (!b) b = (T *) ::operator new(VERIF_CAP * sizeof(T));
  }
public:
  typedef T value_type; typedef T *iterator; typedef const T *const_iterator; typedef size_t size_type; typedef T &reference; typedef const T &const_reference;
  struct reverse_iterator {
    T *p;
    T &operator*() const { return p[-1]; }
    T *operator->() const { return p - 1; }
    reverse_iterator &operator++() { --p; return *this; }
    reverse_iterator operator++(int) { reverse_iterator r = *this; --p; return r; }
    bool operator==(const reverse_iterator &o) const { return p == o.p; }
    bool operator!=(const reverse_iterator &o) const { return p != o.p; }
  };
  typedef reverse_iterator const_reverse_iterator;
  vector() : b(0), n(0) {}
  explicit vector(size_t k) : b(0), n(0) { resize(k); }
  vector(size_t k, const T &v) : b(0), n(0) { for (size_t i = 0; i < k; ++i) push_back(v); }
  vector(initializer_list<T> l) : b(0), n(0) { for (const T *p = l.begin(); p != l.end(); ++p) push_back(*p); }
  template <class I> vector(I *f, I *l) : b(0), n(0) { for (; f != l; ++f) push_back(*f); }
  vector(reverse_iterator f, reverse_iterator l) : b(0), n(0) { for (; f != l; ++f) push_back(*f); }
  vector(const vector &o) : b(0), n(0) { for (size_t i = 0; i < o.n; ++i) push_back(o.b[i]); }
  vector(vector &&o) : b(o.b), n(o.n) { o.b = 0; o.n = 0; }
  ~vector() { clear(); if (b) ::operator delete(b); }
  vector &operator=(const vector &o) { if (this != &o) { clear(); for (size_t i = 0; i < o.n; ++i) push_back(o.b[i]); } return *this; }
  vector &operator=(vector &&o) { if (this != &o) { clear(); if (b) ::operator delete(b); b = o.b; n = o.n; o.b = 0; o.n = 0; } return *this; }
  vector &operator=(initializer_list<T> l) { clear(); for (const T *p = l.begin(); p != l.end(); ++p) push_back(*p); return *this; }
  void assign(size_t k, const T &v) { clear(); for (size_t i = 0; i < k; ++i) push_back(v); }
  size_t size() const { return n; }
  size_t capacity() const { return VERIF_CAP; }
  bool empty() const { return n == 0; }
  void reserve(size_t) {}
  void shrink_to_fit() {}
  T &operator[](size_t i) { return b[i]; }
  const T &operator[](size_t i) const { return b[i]; }
  T &at(size_t i) { if (i >= n) verif_unsupported("vector::at throws"); return b[i]; }
  const T &at(size_t i) const { if (i >= n) verif_unsupported("vector::at throws"); return b[i]; }
  T &front() { return b[0]; }
  const T &front() const { return b[0]; }
  T &back() { return b[n - 1]; }
  const T &back() const { return b[n - 1]; }
  T *data() { return b; }
  const T *data() const { return b; }
  T *begin() { return b; }
  T *end() { return b + n; }
  const T *begin() const { return b; }
  const T *end() const { return b + n; }
  const T *cbegin() const { return b; }
  const T *cend() const { return b + n; }
  reverse_iterator rbegin() const { reverse_iterator r; r.p = b + n; return r; }
  reverse_iterator rend() const { reverse_iterator r; r.p = b; return r; }
  void push_back(const T &v) { room(n + 1); new ((void *) (b + n)) T(v); ++n; }
  void push_back(T &&v) { room(n + 1); new ((void *) (b + n)) T(std::move(v)); ++n; }
  template <class... A> T &emplace_back(A &&... a) { room(n + 1); new ((void *) (b + n)) T(std::forward<A>(a)...); ++n; return b[n - 1]; }
  void pop_back() { --n; b[n].~T(); }
  void clear() { while (n) pop_back(); }
  void resize(size_t k) { while (n > k) pop_back(); while (n < k) { room(n + 1); new ((void *) (b + n)) T(); ++n; } }
  void resize(size_t k, const T &v) { while (n > k) pop_back(); while (n < k) push_back(v); }
  iterator insert(const_iterator p, const T &v) {
    size_t at = p - b; T c(v);
    push_back(c);
    for (size_t i = n - 1; i > at; --i) b[i] = b[i - 1];
    b[at] = c;
    return b + at;
  }
  template <class I> void insert(const_iterator p, I f, I l) { size_t at = n ? p - b : 0; for (; f != l; ++f, ++at) insert(b + at, *f); }
  iterator erase(const_iterator p) { size_t at = p - b; for (size_t i = at; i + 1 < n; ++i) b[i] = std::move(b[i + 1]); pop_back(); return b + at; }
  iterator erase(const_iterator f, const_iterator l) { size_t at = f - b; for (size_t k = l - f; k; --k) erase(b + at); return b + at; }
  void swap(vector &o) { T *x = b; b = o.b; o.b = x; size_t y = n; n = o.n; o.n = y; }
};
template <class T> bool operator==(const vector<T> &a, const vector<T> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
  return true;
}
template <class T> bool operator!=(const vector<T> &a, const vector<T> &b) { return !(a == b); }
template <class T> bool operator<(const vector<T> &a, const vector<T> &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) { if (a[i] < b[i]) return true; if (b[i] < a[i]) return false; }
  return a.size() < b.size();
}
template <class T> class deque : public vector<T> { public: using vector<T>::vector; deque() {} void pop_front() { this->erase(this->begin()); } void push_front(const T &v) { this->insert(this->begin(), v); } };
template <class T> class list : public deque<T> { public: using deque<T>::deque; list() {} };
template <class T> class queue { vector<T> v; public: void push(const T &x) { v.push_back(x); } T &front() { return v[0]; } void pop() { v.erase(v.begin()); } bool empty() const { return v.empty(); } size_t size() const { return v.size(); } };
template <class T> class stack { vector<T> v; public: void push(const T &x) { v.push_back(x); } T &top() { return v.back(); } void pop() { v.pop_back(); } bool empty() const { return v.empty(); } size_t size() const { return v.size(); } };

class string {
  const char *p;   // texts are immutable; every change makes a new one
public:
  static const size_t npos = (size_t) -1;
  string() : p("") {}
  string(const char *s) : p(verif_str_copy(s)) {}
  string(const string &o) : p(o.p) {}
  string(string &&o) : p(o.p) {}
  string(size_t n, char c) : p("") { for (; n; --n) p = verif_str_char(p, c); }
  string(const string &o, size_t b, size_t n = npos) : p(verif_str_sub(o.p, b, n)) {}
  string(const char *s, size_t n) : p(verif_str_sub(verif_str_copy(s), 0, n)) {}
  ~string() {}
  string &operator=(const string &o) { p = o.p; return *this; }
  string &operator=(const char *s) { p = verif_str_copy(s); return *this; }
  string &operator+=(const string &o) { p = verif_str_cat(p, o.p); return *this; }
  string &operator+=(const char *s) { p = verif_str_cat(p, s); return *this; }
  string &operator+=(char c) { p = verif_str_char(p, c); return *this; }
  string &append(const string &o) { return *this += o; }
  string &append(const char *o) { return *this += o; }
  void push_back(char c) { p = verif_str_char(p, c); }
  const char *c_str() const { return p; }
  const char *data() const { return p; }
  size_t size() const { return verif_str_len(p); }
  size_t length() const { return verif_str_len(p); }
  bool empty() const { return verif_str_empty(p); }
  void clear() { p = ""; }
  char operator[](size_t i) const { return p[i]; }
  char at(size_t i) const { return p[i]; }
  size_t find(char c, size_t from = 0) const { return (size_t) verif_str_find(p, c, from); }
  string substr(size_t b = 0, size_t n = npos) const { string r; r.p = verif_str_sub(p, b, n); return r; }
  int compare(const string &o) const { return verif_str_cmp(p, o.p); }
  int compare(const char *o) const { return verif_str_cmp(p, o); }
  typedef const char *iterator; typedef const char *const_iterator;
  const char *begin() const { return p; }
  const char *end() const { return p + verif_str_len(p); }
  void take(const char *q) { p = q; }
};
inline bool operator==(const string &a, const string &b) { return a.compare(b) == 0; }
inline bool operator==(const string &a, const char *b) { return a.compare(b) == 0; }
inline bool operator==(const char *a, const string &b) { return b.compare(a) == 0; }
inline bool operator!=(const string &a, const string &b) { return !(a == b); }
inline bool operator!=(const string &a, const char *b) { return !(a == b); }
inline bool operator<(const string &a, const string &b) { return a.compare(b) < 0; }
inline string operator+(const string &a, const string &b) { string r(a); r += b; return r; }
inline string operator+(const string &a, const char *b) { string r(a); r += b; return r; }
inline string operator+(const char *a, const string &b) { string r(a); r += b; return r; }
inline string operator+(const string &a, char b) { string r(a); r += b; return r; }
inline string to_string(int n) { string r; r.take(verif_str_num(n)); return r; }
inline string to_string(unsigned n) { string r; r.take(verif_str_num(n)); return r; }
inline string to_string(long n) { string r; r.take(verif_str_num(n)); return r; }
inline string to_string(unsigned long n) { string r; r.take(verif_str_num((long) n)); return r; }

// sorted associative containers keep their elements in order, the unordered ones in order of insertion
// addresses have no order that a program may rely on
template <class T> struct sorted_ { static const bool v = true; };
template <class T> struct sorted_<T *> { static const bool v = false; };
template <class K> struct verif_key { static const K &of(const K &v) { return v; } };
template <class V, class K, bool SORT, class KEY> class assoc {
protected:
  V *b; size_t n;
public:
  typedef V value_type; typedef K key_type; typedef V *iterator; typedef const V *const_iterator;
  assoc() : b(0), n(0) {}
  assoc(const assoc &o) : b(0), n(0) { for (size_t i = 0; i < o.n; ++i) add(o.b[i]); }
  assoc(assoc &&o) : b(o.b), n(o.n) { o.b = 0; o.n = 0; }
  assoc(initializer_list<V> l) : b(0), n(0) { for (const V *p = l.begin(); p != l.end(); ++p) insert(*p); }
  template <class I> assoc(I f, I l) : b(0), n(0) { for (; f != l; ++f) insert(*f); }
  ~assoc() { clear(); if (b) ::operator delete(b); }
  assoc &operator=(const assoc &o) { if (this != &o) { clear(); for (size_t i = 0; i < o.n; ++i) add(o.b[i]); } return *this; }
  assoc &operator=(assoc &&o) { if (this != &o) { clear(); if (b) ::operator delete(b); b = o.b; n = o.n; o.b = 0; o.n = 0; } return *this; }
  void clear() { while (n) { --n; b[n].~V(); } }
  V *add(const V &v) {
    if (n >= VERIF_CAP) verif_unsupported("large container");
    if (!b) b = (V *) ::operator new(VERIF_CAP * sizeof(V));
    size_t i = n;
    if (SORT) for (; i > 0 && KEY::of(v) < KEY::of(b[i - 1]); --i) { new ((void *) (b + i)) V(b[i - 1]); b[i - 1].~V(); }
    new ((void *) (b + i)) V(v);
    ++n;
    return b + i;
  }
  V *find(const K &k) { for (size_t i = 0; i < n; ++i) if (KEY::of(b[i]) == k) return b + i; return b + n; }
  const V *find(const K &k) const { for (size_t i = 0; i < n; ++i) if (KEY::of(b[i]) == k) return b + i; return b + n; }
  size_t count(const K &k) const { return find(k) != b + n; }
  pair<iterator, bool> insert(const V &v) {
    V *p = find(KEY::of(v));
    if (p != b + n) return pair<iterator, bool>(p, false);
    return pair<iterator, bool>(add(v), true);
  }
  iterator insert(const_iterator, const V &v) { return insert(v).first; }
  template <class I> void insert(I f, I l) { for (; f != l; ++f) insert(V(*f)); }
  template <class... A> pair<iterator, bool> emplace(A &&... a) { return insert(V(std::forward<A>(a)...)); }
  size_t erase(const K &k) { V *p = find(k); if (p == b + n) return 0; erase((const_iterator) p); return 1; }
  iterator erase(const_iterator q) {
    V *p = b + (q - b);
    p->~V();
    for (V *x = p; x + 1 < b + n; ++x) { new ((void *) x) V(x[1]); x[1].~V(); }
    --n;
    return p;
  }
  iterator erase(const_iterator f, const_iterator l) { size_t at = f - b; for (size_t k = l - f; k; --k) erase((const_iterator) (b + at)); return b + at; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  V *begin() { return b; }
  V *end() { return b + n; }
  const V *begin() const { return b; }
  const V *end() const { return b + n; }
  const V *cbegin() const { return b; }
  const V *cend() const { return b + n; }
};
template <class K, class T> struct verif_first { static const K &of(const pair<const K, T> &v) { return v.first; } };
template <class K, class T, bool SORT> class verif_map : public assoc<pair<const K, T>, K, SORT, verif_first<K, T> > {
  typedef assoc<pair<const K, T>, K, SORT, verif_first<K, T> > base;
public:
  typedef T mapped_type;
  verif_map() {}
  verif_map(initializer_list<pair<const K, T> > l) : base(l) {}
  T &operator[](const K &k) {
    pair<const K, T> *p = this->find(k);
    if (p == this->end()) p = this->add(pair<const K, T>(k, T()));
    return p->second;
  }
  T &at(const K &k) { pair<const K, T> *p = this->find(k); if (p == this->end()) verif_unsupported("map::at throws"); return p->second; }
  const T &at(const K &k) const { const pair<const K, T> *p = this->find(k); if (p == this->end()) verif_unsupported("map::at throws"); return p->second; }
};
template <class K, class T, class C = less<K>, class A = int> class map : public verif_map<K, T, sorted_<K>::v> { public: map() {} map(initializer_list<pair<const K, T> > l) : verif_map<K, T, sorted_<K>::v>(l) {} };
template <class K, class T, class H = hash<K>, class E = int> class unordered_map : public verif_map<K, T, false> { public: unordered_map() {} unordered_map(initializer_list<pair<const K, T> > l) : verif_map<K, T, false>(l) {} };
template <class K, class C = less<K> > class set : public assoc<K, K, sorted_<K>::v, verif_key<K> > { typedef assoc<K, K, sorted_<K>::v, verif_key<K> > base; public: set() {} set(initializer_list<K> l) : base(l) {} template <class I> set(I f, I l) : base(f, l) {} };
template <class K, class H = hash<K> > class unordered_set : public assoc<K, K, false, verif_key<K> > { public: unordered_set() {} unordered_set(initializer_list<K> l) : assoc<K, K, false, verif_key<K> >(l) {} };
template <class V, class K, bool S, class X> bool operator==(const assoc<V, K, S, X> &a, const assoc<V, K, S, X> &b) {
  if (a.size() != b.size()) return false;
  const V *y = b.begin();
  for (const V *x = a.begin(); x != a.end(); ++x, ++y) if (!(*x == *y)) return false;
  return true;
}

template <class I, class T> I find(I f, I l, const T &v) { for (; f != l; ++f) if (*f == v) return f; return l; }
template <class I, class P> I find_if(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return f; return l; }
template <class I, class P> bool any_of(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return true; return false; }
template <class I, class P> bool all_of(I f, I l, P p) { for (; f != l; ++f) if (!p(*f)) return false; return true; }
template <class I, class P> P for_each(I f, I l, P p) { for (; f != l; ++f) p(*f); return p; }
template <class I, class T> long count(I f, I l, const T &v) { long n = 0; for (; f != l; ++f) if (*f == v) ++n; return n; }
template <class I, class T> void fill(I f, I l, const T &v) { for (; f != l; ++f) *f = v; }
template <class I, class O> O copy(I f, I l, O o) { for (; f != l; ++f, ++o) *o = *f; return o; }
template <class I> void reverse(I f, I l) { while (f != l && f != --l) { swap(*f, *l); ++f; } }
template <class I> void sort(I f, I l) { for (I i = f; i != l; ++i) for (I j = i; j != f && *j < *(j - 1); --j) swap(*j, *(j - 1)); }
template <class I, class P> void sort(I f, I l, P p) { for (I i = f; i != l; ++i) for (I j = i; j != f && p(*j, *(j - 1)); --j) swap(*j, *(j - 1)); }
template <class I> I max_element(I f, I l) { I m = f; for (; f != l; ++f) if (*m < *f) m = f; return m; }
template <class I> I min_element(I f, I l) { I m = f; for (; f != l; ++f) if (*f < *m) m = f; return m; }

template <class I, class T> T accumulate(I f, I l, T v) { for (; f != l; ++f) v = v + *f; return v; }
template <class T, size_t N> struct array {
  T e[N];
  T &operator[](size_t i) { return e[i]; }
  const T &operator[](size_t i) const { return e[i]; }
  T *begin() { return e; }
  T *end() { return e + N; }
  const T *begin() const { return e; }
  const T *end() const { return e + N; }
  size_t size() const { return N; }
  T *data() { return e; }
};
template <class A, class B> struct tie2 { A &a; B &b; template <class P> tie2 &operator=(const P &p) { a = p.first; b = p.second; return *this; } };
template <class A, class B> tie2<A, B> tie(A &a, B &b) { tie2<A, B> t = {a, b}; return t; }
inline int stoi(const string &) { verif_unsupported("stoi"); return 0; }
template <class I> I next(I i, long n = 1) { return i + n; }
template <class I> I prev(I i, long n = 1) { return i - n; }
template <class I> long distance(I a, I b) { return b - a; }

struct ios_base { enum fmt { x }; };
class ostream {
public:
  template <class T> ostream &operator<<(const T &) { return *this; }
  ostream &operator<<(const char *) { return *this; }
  ostream &operator<<(ostream &(*f)(ostream &)) { return *this; }
  ostream &operator<<(ios_base &(*f)(ios_base &)) { return *this; }
  ostream &put(char) { return *this; }
  ostream &write(const char *, long) { return *this; }
  ostream &flush() { return *this; }
};
inline ostream &endl(ostream &o) { return o; }
inline ostream &flush(ostream &o) { return o; }
inline ios_base &hex(ios_base &o) { return o; }
inline ios_base &dec(ios_base &o) { return o; }
class istream {
protected:
  const char *rest;
public:
  istream() : rest(0) {}
  operator bool() const { return true; }
  bool more() const { return rest != 0 && !verif_str_empty(rest); }
  const char *take(int c) { const char *r = verif_str_until(rest, c); rest = verif_str_after(rest, c); return r; }
};
extern ostream cout, cerr, clog;
extern istream cin;
class istringstream : public istream {
public:
  istringstream() {}
  explicit istringstream(const string &s) { rest = s.c_str(); }
  explicit istringstream(const char *s) { rest = verif_str_copy(s); }
};
// true when a line was read, as the stream converted to bool
struct verif_got { bool v; operator bool() const { return v; } };
inline verif_got getline(istream &in, string &s, char c = '\n') {
  verif_got g; g.v = in.more();
  if (g.v) s.take(in.take(c));
  return g;
}
class ostringstream : public ostream {
  const char *p;
public:
  ostringstream() : p("") {}
  string str() const { string s; s.take(p); return s; }
  template <class T> ostringstream &operator<<(const T &) { verif_unsupported("formatted output"); return *this; }
  ostringstream &operator<<(const string &s) { p = verif_str_cat(p, s.c_str()); return *this; }
  ostringstream &operator<<(const char *s) { p = verif_str_cat(p, s); return *this; }
  ostringstream &operator<<(char c) { p = verif_str_char(p, c); return *this; }
  ostringstream &operator<<(int n) { p = verif_str_cat(p, verif_str_num(n)); return *this; }
};
class stringstream : public ostringstream {};
class fstream : public ostream { public: bool is_open() const { return false; } void open(const char *) {} void close() {} };
class ofstream : public ostream { public: ofstream() {} explicit ofstream(const char *) {} explicit ofstream(const string &) {} bool is_open() const { return false; } void open(const char *) {} void close() {} operator bool() const { return false; } };
class ifstream : public istream { public: ifstream() {} explicit ifstream(const char *) {} bool is_open() const { return false; } void close() {} };
template <class T> struct numeric_limits;
template <> struct numeric_limits<int> { static constexpr int max() { return INT_MAX; } static constexpr int min() { return INT_MIN; } };
template <class T> class unique_ptr {
  T *p;
public:
  explicit unique_ptr(T *q = 0) : p(q) {}
  unique_ptr(unique_ptr &&o) : p(o.p) { o.p = 0; }
  ~unique_ptr() { delete p; }
  T *get() const { return p; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  T *release() { T *q = p; p = 0; return q; }
  void reset(T *q = 0) { delete p; p = q; }
  operator bool() const { return p != 0; }
};
}
using std::size_t;
