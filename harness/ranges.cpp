// S03: multi-element edits from ranges of every kind: iterator categories, other element types, other sequences.
#include "common.h"

// one array, several kinds of iterators over it
template <class V> struct Buf {
  V* p; u64 n;
  explicit Buf(u64 c) : p(static_cast<V*>(::operator new((c + 1) * sizeof(V)))), n(0) {}
  void add(V const& x) { ::new ((void*)(p + n)) V(x); ++n; }
  ~Buf() { for (u64 i = 0; i < n; ++i) p[i].~V(); ::operator delete(static_cast<void*>(p)); }
};
struct Link { T t; Link* next; Link* prev; Link(T const& x) : t(x), next(nullptr), prev(nullptr) {} };
struct List {  // circular, with a head element that must never be read through
  Link* h; u64 n;
  List() : h(new Link(mk(77))), n(0) { h->next = h->prev = h; }
  void add(T const& x) { Link* l = new Link(x); l->prev = h->prev; l->next = h; h->prev->next = l; h->prev = l; ++n; }
  ~List() { for (Link* l = h->next; l != h;) { Link* k = l->next; delete l; l = k; } delete h; }
};
template <class Cat> struct LinkIt {
  typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
  Link const* l; Link const* h;
  reference operator*() const { CHECK(l != h, "a source range is read past its end"); return l->t; }
  pointer operator->() const { return std::addressof(l->t); }
  LinkIt& operator++() { CHECK(l != h, "a source range is left past its end"); l = l->next; return *this; }
  LinkIt operator++(int) { LinkIt r(*this); ++*this; return r; }
  LinkIt& operator--() { CHECK(l->prev != h, "a source range is left before its begin"); l = l->prev; return *this; }
  LinkIt operator--(int) { LinkIt r(*this); --*this; return r; }
  friend bool operator==(LinkIt const& a, LinkIt const& b) { return a.l == b.l; }
  friend bool operator!=(LinkIt const& a, LinkIt const& b) { return a.l != b.l; }
};
// a random access iterator over computed values (elements do not exist in memory)
struct Gen {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T reference;
  u64 const* v; std::ptrdiff_t k, n;
  T operator*() const { CHECK(k >= 0 && k < n, "a source range is read outside its bounds"); return mk(v[k]); }
  T operator[](std::ptrdiff_t d) const { return *(*this + d); }
  Gen& operator+=(std::ptrdiff_t d) { k += d; CHECK(k >= 0 && k <= n, "a source iterator leaves its range"); return *this; }
  Gen& operator-=(std::ptrdiff_t d) { return *this += -d; }
  Gen& operator++() { return *this += 1; } Gen& operator--() { return *this += -1; }
  Gen operator++(int) { Gen r(*this); ++*this; return r; } Gen operator--(int) { Gen r(*this); --*this; return r; }
  friend Gen operator+(Gen a, std::ptrdiff_t d) { return a += d; } friend Gen operator+(std::ptrdiff_t d, Gen a) { return a += d; } friend Gen operator-(Gen a, std::ptrdiff_t d) { return a -= d; }
  friend std::ptrdiff_t operator-(Gen const& a, Gen const& b) { return a.k - b.k; }
  friend bool operator==(Gen const& a, Gen const& b) { return a.k == b.k; } friend bool operator!=(Gen const& a, Gen const& b) { return a.k != b.k; }
  friend bool operator<(Gen const& a, Gen const& b) { return a.k < b.k; } friend bool operator>(Gen const& a, Gen const& b) { return a.k > b.k; }
  friend bool operator<=(Gen const& a, Gen const& b) { return a.k <= b.k; } friend bool operator>=(Gen const& a, Gen const& b) { return a.k >= b.k; }
};
struct Wide { u64 pad; u64 x; operator T() const { return mk(x); } };
struct Coded { T x; operator T() const { return mk(~val_of(x)); } };   // as large as an element, but holding it in another form  // larger than an element, and converts to one

typedef boost::segmented_tree::seq<T, std::allocator<T>, 3 * sizeof(T), 16 + 16 * 4> Other;

static Model want;   // what the source range holds
template <class I> static NOINLINE void edit_from(S& s, Model& m, I first, I last, u64 what) {
  const char* w = "an edit from a range of another kind differs from the list edit";
  u64 c = want.n;
  if (what == 0) { S t(first, last); same(t, want, w); use_up(t, want, w, 4); return; }
  if (what == 1) { s.assign(first, last); m.n = 0; for (u64 i = 0; i < c; ++i) m.push(want.a[i]); }
  else {
    u64 p = sx_split(sx_range("p", 0, m.n)); It r = s.insert(s.nth(p), first, last);
    for (u64 i = 0; i < c; ++i) m.insert(p + i, want.a[i]);
    CHECK(s.index_of(r) == p, w); if (p < m.n) CHECK(r.current() == std::addressof(s[p]), w); else CHECK(r == s.end(), w);
  }
  same(s, m, w); use_up(s, m, w, 4);
}
template <class V> static NOINLINE void from_values(S& s, Model& m, u64 c, u64 bits, u64 what, bool sign) {
  Buf<V> b(c);
  for (u64 i = 0; i < c; ++i) {
    u64 x = sx_sym("in", bits); V v; v = (V)x; b.add(v);
    u64 y = sign ? (u64)(std::int64_t)v : (u64)v;   // the value of the source element, as a number
#if ELEM == 3
    y &= 0xff;
#endif
    want.push(y);
  }
  edit_from(s, m, (V const*)b.p, (V const*)(b.p + c), what);
}
RUN(h_ranges) {
  {
  S s; Model m;
  u64 n = sx_split(sx_range("n", 0, sx_param("n", 4))); build(s, m, n, sx_split(sx_range("shape", 0, sx_param("shape_hi", 2))));
  u64 c = sx_split(sx_range("count", sx_param("cmin", 0), sx_param("c", 5))), kind = sx_split(sx_range("kind", 0, 14)), what = sx_split(sx_range("what", 0, 2));
  want.n = 0;
#if ELEM == 2 || ELEM == 7 || ELEM == 8
  sx_assume(kind < 9 || kind == 14);
#endif
  if (kind < 9) {
    for (u64 i = 0; i < c; ++i) want.push(sx_val("in"));
    Buf<T> b(c); List l; for (u64 i = 0; i < c; ++i) { T t = mk(want.a[i]); b.add(t); if (kind == 1 || kind == 2 || kind == 3) l.add(t); }
    Other o; if (kind >= 6) o.assign((T const*)b.p, (T const*)b.p + c);
    switch (kind) {
      case 0: edit_from(s, m, (T const*)b.p, (T const*)b.p + c, what); break;
      case 1: { LinkIt<std::forward_iterator_tag> f = {l.h->next, l.h}, e = {l.h, l.h}; edit_from(s, m, f, e, what); break; }
      case 2: { LinkIt<std::bidirectional_iterator_tag> f = {l.h->next, l.h}, e = {l.h, l.h}; edit_from(s, m, f, e, what); break; }
      case 3: { LinkIt<std::input_iterator_tag> f = {l.h->next, l.h}, e = {l.h, l.h}; edit_from(s, m, f, e, what); break; }
      case 4: { Gen f = {want.a, 0, (std::ptrdiff_t)c}, e = {want.a, (std::ptrdiff_t)c, (std::ptrdiff_t)c}; edit_from(s, m, f, e, what); break; }
      case 5: { for (u64 i = 0; i < c / 2; ++i) { u64 x = want.a[i]; want.a[i] = want.a[c - 1 - i]; want.a[c - 1 - i] = x; }
        edit_from(s, m, std::reverse_iterator<T const*>(b.p + c), std::reverse_iterator<T const*>(b.p), what); break; }
      case 6: edit_from(s, m, o.cbegin(), o.cend(), what); break;
      case 7: { u64 a = c > 20 ? sx_split(sx_range("a", 0, 1)) * 64 : sx_split(sx_range("a", 0, c)), z = c > 20 ? c : a; while (z < c && sx_bool("more")) ++z;   // a part of another sequence
        for (u64 i = a; i < z; ++i) want.a[i - a] = want.a[i];
        want.n = z - a; edit_from(s, m, o.nth(a), o.nth(z), what); break; }
      default: edit_from(s, m, std::make_move_iterator(b.p), std::make_move_iterator(b.p + c), what); break;
    }
  }
  else if (kind == 14) {
    Buf<Coded> b(c); for (u64 i = 0; i < c; ++i) { u64 x = sx_val("in"); Coded e = {mk(x)}; b.add(e); want.push(val_of(mk(~x))); }
    edit_from(s, m, (Coded const*)b.p, (Coded const*)b.p + c, what);
  }
#if ELEM != 2 && ELEM != 7 && ELEM != 8
  else switch (kind) {
    case 9: from_values<std::uint32_t>(s, m, c, 32, what, false); break;
    case 10: from_values<unsigned char>(s, m, c, 8, what, false); break;
    case 11: from_values<signed char>(s, m, c, 8, what, true); break;
    case 12: {
      Buf<Wide> b(c); for (u64 i = 0; i < c; ++i) { Wide x = {1, sx_val("in")}; b.add(x); want.push(x.x); }
      edit_from(s, m, b.p, b.p + c, what); break; }
    default: {
#if ELEM == 0 || ELEM == 3
      // a count and a value, both given as int
      int const k = (int)c; u64 const x = ELEM == 3 ? 250 : (u64)-6; want.n = 0; for (u64 i = 0; i < c; ++i) want.push(x);
      const char* w = "a count and a value of other integer types";
      if (what == 0) { S t(k, -6); same(t, want, w); }
      else if (what == 1) { s.assign(k, -6); same(s, want, w); }
      else { u64 p = sx_split(sx_range("p", 0, m.n)); s.insert(s.nth(p), k, -6); for (u64 i = 0; i < c; ++i) m.insert(p, x); same(s, m, w); }
#endif
      break; }
  }
#endif
  sx_trace(n); sx_trace(c); sx_cover("range edit checked");
  }
#if ELEM == 1
  CHECK(st.live == 0, "elements leak");
#endif
}
