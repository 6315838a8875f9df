// S30: what is moved, what is copied, and how often.
#include "common.h"
#if ELEM == 1
static NOINLINE void pre(S& s, Model& m, const char* sh, const char* nm, u64 lo, u64 hi, u64 shapes) {
  u64 shape = sx_split(sx_range(sh, sx_param("shape_lo", 0), shapes));
  u64 n = sx_split(sx_range(nm, lo, hi));
  build(s, m, n, shape);
}
static Stats b4;
static inline void mark() { b4 = st; }
static inline u64 copies() { return st.copy - b4.copy + st.casgn - b4.casgn; }
static inline u64 made() { return st.def - b4.def + st.val - b4.val; }
static NOINLINE void counts(u64 lo, u64 hi, const char* w) {
  CHECK(copies() >= lo && copies() <= hi, w);
  CHECK(st.self_assign == b4.self_assign, "an element is assigned to itself");
}
static const char NOCOPY[] = "an operation that needs no copies copies elements";
static const char ONCE[] = "an operation copies its arguments a wrong number of times";
static const char SRC[] = "an operation modifies a source it only reads";
static const char GONE[] = "an operation on move iterators does not move from its sources";
// a source of T objects
struct Arr {
  T* p; u64 n; u64 v[MAXN];
  explicit Arr(u64 c) : p(static_cast<T*>(::operator new((c + 1) * sizeof(T)))), n(c) { for (u64 i = 0; i < c; ++i) { v[i] = sx_val("in"); ::new ((void*)(p + i)) T(v[i]); } }
  ~Arr() { for (u64 i = 0; i < n; ++i) p[i].~T(); ::operator delete(p); }
  NOINLINE void intact() const { for (u64 i = 0; i < n; ++i) CHECK(p[i].v == v[i] && sx_gget(p + i) == LIVE, SRC); }
  NOINLINE void gone() const { for (u64 i = 0; i < n; ++i) CHECK(sx_gget(p + i) == MOVED, GONE); }
};
struct Src { u64 cur, n; };
// single pass over an Arr
template <class R> struct One {
  typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef R reference;
  T* p;
  R operator*() const { return static_cast<R>(*p); }
  One& operator++() { ++p; return *this; }
  struct Held { T* q; R operator*() const { return static_cast<R>(*q); } };
  Held operator++(int) { Held h = {p}; ++p; return h; }
  friend bool operator==(One const& a, One const& b) { return a.p == b.p; }
  friend bool operator!=(One const& a, One const& b) { return a.p != b.p; }
};
static NOINLINE void splice_model(Model& m, Model& o, u64 p, u64 q, u64 c) {
  for (u64 i = 0; i < c; ++i) m.insert(p + i, o.a[q + i]);
  o.erase(q, q + c);
}
// values in a fixed pattern, for sizes where arbitrary ones give too many orders
static NOINLINE void pattern(S& s, Model& m, u64 k) { u64 j = 0; for (It i = s.begin(); i != s.end(); ++i, ++j) { m.a[j] = k == 0 ? j * 7 % 11 : k == 1 ? 1000 - j : k == 2 ? j / 2 : j % 2; *i = mk(m.a[j]); } }
enum { MOVE_KINDS = 22 };
RUN(h_moves) {
  {
  S s; Model m; pre(s, m, "shape", "n", sx_param("nmin", 0), sx_param("n", 8), sx_param("shape_hi", SHAPES - 1));
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", MOVE_KINDS - 1)));
  u64 cmax = sx_param("c", 4), fixed = sx_param("fixed", 0);
  if (fixed) pattern(s, m, kind == 13 ? 2 : sx_split(sx_range("pattern", 0, 3)));
  switch (kind) {
    case 0: {  // one element given as rvalue
      u64 how = sx_split(sx_range("how", 0, 5)), p = how == 2 || how == 3 ? 0 : how == 4 || how == 5 ? m.n : sx_range("p", 0, m.n), x = sx_val("x");
      T t(x); mark();
      switch (how) {
        case 0: s.insert(s.nth(p), std::move(t)); break;
        case 1: s.emplace(s.nth(p), std::move(t)); break;
        case 2: s.push_front(std::move(t)); break;
        case 3: s.emplace_front(std::move(t)); break;
        case 4: s.push_back(std::move(t)); break;
        default: s.emplace_back(std::move(t)); break;
      }
      counts(0, 0, NOCOPY); CHECK(made() == 0, "inserting an rvalue constructs another element"); CHECK(sx_gget(&t) == MOVED, "inserting an rvalue does not move from it");
      m.insert(sx_split(p), x); break; }
    case 1: {  // one element made from arguments
      u64 how = sx_split(sx_range("how", 0, 2)), p = how == 1 ? 0 : how == 2 ? m.n : sx_range("p", 0, m.n), x = sx_val("x"); bool none = sx_bool("none");
      mark();
      if (none) { if (how == 0) s.emplace(s.nth(p)); else if (how == 1) s.emplace_front(); else s.emplace_back(); x = 0; }
      else if (how == 0) s.emplace(s.nth(p), x); else if (how == 1) s.emplace_front(x); else s.emplace_back(x);
      counts(0, 0, NOCOPY); CHECK(made() == 1, "emplace does not construct exactly one element from its arguments");
      m.insert(sx_split(p), x); break; }
    case 2: {  // one element given as lvalue
      u64 how = sx_split(sx_range("how", 0, 5)), p = how == 2 || how == 3 ? 0 : how == 4 || how == 5 ? m.n : sx_range("p", 0, m.n), x = sx_val("x");
      T t(x); mark();
      switch (how) {
        case 0: { T const& c = t; s.insert(s.nth(p), c); break; }
        case 1: s.emplace(s.nth(p), t); break;
        case 2: s.push_front(t); break;
        case 3: s.emplace_front(t); break;
        case 4: s.push_back(t); break;
        default: { T const& c = t; s.emplace_back(c); break; }
      }
      counts(1, 1, ONCE); CHECK(t.v == x && sx_gget(&t) == LIVE, SRC);
      m.insert(sx_split(p), x); break; }
    case 3: {  // erasure of one
      sx_assume(m.n > 0); u64 how = sx_split(sx_range("how", 0, 2)), p = how == 1 ? 0 : how == 2 ? m.n - 1 : sx_range("p", 0, m.n - 1);
      mark(); if (how == 0) s.erase(s.nth(p)); else if (how == 1) s.pop_front(); else s.pop_back();
      counts(0, 0, NOCOPY); CHECK(made() == 0, NOCOPY); m.erase(sx_split(p)); break; }
    case 4: {  // erasure of a range
      u64 p = sx_split(sx_range("p", 0, m.n)), q = sx_split(sx_range("q", p, m.n));
      mark(); s.erase(s.nth(p), s.nth(q)); counts(0, 0, NOCOPY); CHECK(made() == 0, NOCOPY); m.erase(p, q); break; }
    case 5: {  // resize, clear
      if (sx_bool("clear")) { mark(); s.clear(); counts(0, 0, NOCOPY); CHECK(made() == 0 && st.move == b4.move && st.masgn == b4.masgn, "clear creates or moves elements"); m.n = 0; break; }
      u64 c = sx_split(sx_range("c", 0, m.n + cmax)); mark(); s.resize((S::size_type)c); counts(0, 0, NOCOPY);
      CHECK(made() == (c > m.n ? c - m.n : 0), "resize does not construct exactly the added elements"); while (m.n > c) m.erase(m.n - 1); while (m.n < c) m.push(0); break; }
    case 6: {  // count and value
      u64 how = sx_split(sx_range("how", 0, 2)), c = sx_split(sx_range("c", 0, cmax)), x = sx_val("x"), p = how == 0 ? sx_split(sx_range("p", 0, m.n)) : m.n, n = m.n;
      T t(x); mark();
      if (how == 0) { s.insert(s.nth(p), (S::size_type)c, t); for (u64 i = 0; i < c; ++i) m.insert(p, x); counts(c, c + 1, ONCE); }
      else if (how == 1) { s.resize((S::size_type)(n + c), t); for (u64 i = 0; i < c; ++i) m.push(x); counts(c, c + 1, ONCE); }
      else { s.assign((S::size_type)c, t); m.n = 0; for (u64 i = 0; i < c; ++i) m.push(x); counts(c, c + 1, ONCE); }
      CHECK(made() == 0, ONCE); CHECK(t.v == x && sx_gget(&t) == LIVE, SRC); break; }
    case 7: case 8: {  // range inserted: from lvalues (pointers, single pass) or moved from
      u64 how = sx_split(sx_range("how", 0, 1)), c = sx_split(sx_range("c", 0, cmax)), p = sx_split(sx_range("p", 0, m.n));
      Arr a(c); mark();
      if (kind == 7) { if (how) s.insert(s.nth(p), a.p, a.p + c); else { One<T const&> f = {a.p}, l = {a.p + c}; s.insert(s.nth(p), f, l); } counts(c, c, ONCE); a.intact(); }
      else { if (how) s.insert(s.nth(p), std::make_move_iterator(a.p), std::make_move_iterator(a.p + c)); else { One<T&&> f = {a.p}, l = {a.p + c}; s.insert(s.nth(p), f, l); } counts(0, 0, NOCOPY); a.gone(); }
      CHECK(made() == 0, ONCE);
      for (u64 i = 0; i < c; ++i) m.insert(p + i, a.v[i]);
      break; }
    case 9: case 10: {  // range assigned
      u64 how = sx_split(sx_range("how", 0, 1)), c = sx_split(sx_range("c", 0, m.n + cmax));
      Arr a(c); mark();
      if (kind == 9) { if (how) s.assign(a.p, a.p + c); else { One<T const&> f = {a.p}, l = {a.p + c}; s.assign(f, l); } counts(c, c, ONCE); a.intact(); }
      else { if (how) s.assign(std::make_move_iterator(a.p), std::make_move_iterator(a.p + c)); else { One<T&&> f = {a.p}, l = {a.p + c}; s.assign(f, l); } counts(0, 0, NOCOPY); a.gone(); }
      CHECK(made() == 0, ONCE);
      m.n = 0; for (u64 i = 0; i < c; ++i) m.push(a.v[i]);
      break; }
    case 11: {  // construction
      sx_assume(m.n == 0);
      u64 how = sx_split(sx_range("how", 0, 5)), c = sx_split(sx_range("c", 0, sx_param("cc", 20))), x = sx_val("x");
      Arr a(how < 4 ? c : 0); T t(x); mark(); Model o;
      for (u64 i = 0; i < c; ++i) o.push(how < 4 ? a.v[i] : how == 4 ? x : 0);
      switch (how) {
        case 0: { S b(a.p, a.p + c); counts(c, c, ONCE); a.intact(); same_by_index(b, o, ONCE); break; }
        case 1: { S b(std::make_move_iterator(a.p), std::make_move_iterator(a.p + c)); counts(0, 0, NOCOPY); a.gone(); same_by_index(b, o, NOCOPY); break; }
        case 2: { One<T const&> f = {a.p}, l = {a.p + c}; S b(f, l); counts(c, c, ONCE); a.intact(); same_by_index(b, o, ONCE); break; }
        case 3: { One<T&&> f = {a.p}, l = {a.p + c}; S b(f, l); counts(0, 0, NOCOPY); a.gone(); same_by_index(b, o, NOCOPY); break; }
        case 4: { S b((S::size_type)c, t); counts(c, c + 1, ONCE); CHECK(t.v == x && sx_gget(&t) == LIVE, SRC); same_by_index(b, o, ONCE); break; }
        default: { S b((S::size_type)c); counts(0, 0, NOCOPY); CHECK(made() == c, ONCE); same_by_index(b, o, NOCOPY); break; }
      }
      break; }
    case 12: {  // splice
      S b; Model o; pre(b, o, "bshape", "bn", 0, sx_param("bn", 4), sx_param("bshape_hi", 1));
      u64 how = sx_split(sx_range("how", 0, 2)), p = sx_split(sx_range("p", 0, m.n)); bool rv = sx_bool("rv");
      u64 q = 0, c = o.n;
      if (how == 1) { sx_assume(o.n > 0); q = sx_split(sx_range("q", 0, o.n - 1)); c = 1; }
      if (how == 2) { q = sx_split(sx_range("q", 0, o.n)); c = sx_split(sx_range("k", 0, o.n - q)); }
      CIt at = s.nth(p), f = b.nth(q), l = b.nth(q + c);
      mark();
      if (how == 0) { if (rv) s.splice(at, std::move(b)); else s.splice(at, b); }
      else if (how == 1) { if (rv) s.splice(at, std::move(b), f); else s.splice(at, b, f); }
      else { if (rv) s.splice(at, std::move(b), f, l); else s.splice(at, b, f, l); }
      counts(0, 0, NOCOPY); CHECK(made() == 0, NOCOPY);
      splice_model(m, o, p, q, c); same_by_index(b, o, NOCOPY); break; }
    case 13: {  // merge: two equal runs with arbitrary first values keep the model simple
      S b; Model o; u64 k = sx_split(sx_range("bn", 0, sx_param("bn", 4)));
      for (u64 i = 0; i < k; ++i) { u64 x = fixed ? i * 3 : sx_val("w"); if (i) sx_assume(o.a[i - 1] <= x); b.push_back(mk(x)); o.push(x); }
      for (u64 i = 1; i < m.n; ++i) sx_assume(m.a[i - 1] <= m.a[i]);
      bool rv = sx_bool("rv"), cmp = sx_bool("cmp"); mark();
      if (rv) { if (cmp) s.merge(std::move(b), [](T const& x, T const& y) { return x.v < y.v; }); else s.merge(std::move(b)); } else { if (cmp) s.merge(b, [](T const& x, T const& y) { return x.v < y.v; }); else s.merge(b); }
      counts(0, 0, NOCOPY); CHECK(made() == 0, NOCOPY); CHECK(s.size() == m.n + o.n && b.empty(), NOCOPY); m.n = 0; for (It i = s.begin(); i != s.end(); ++i) m.push(i->v); break; }
    case 14: { bool cmp = sx_bool("cmp"); mark(); if (cmp) s.sort([](T const& x, T const& y) { return y.v < x.v; }); else s.sort(); counts(0, 0, NOCOPY); CHECK(made() == 0 && s.size() == m.n, NOCOPY); m.n = 0; for (It i = s.begin(); i != s.end(); ++i) { CHECK(sx_gget(i.current()) == LIVE, "sort leaves a moved-from element"); m.push(i->v); } break; }
    case 15: { mark(); s.reverse(); counts(0, 0, NOCOPY); CHECK(made() == 0, NOCOPY); for (u64 i = 0; i + i + 1 < m.n; ++i) std::swap(m.a[i], m.a[m.n - 1 - i]); break; }
    case 16: {  // remove, remove_if, unique: every outcome is fixed per position, so the model needs no values
      u64 how = sx_split(sx_range("how", 0, 3)); u64 x = m.n ? m.a[m.n / 2] : 0; T t(x); mark();
      if (how == 0) { s.remove_if([](T const& e) { return (e.v & 1) != 0; }); counts(0, 0, NOCOPY); }
      else if (how == 1) { s.remove(t); counts(0, 1, ONCE); CHECK(t.v == x && sx_gget(&t) == LIVE, SRC); }
      else if (how == 2) { s.unique(); counts(0, 0, NOCOPY); }
      else { s.unique([](T const& e, T const& f) { return (e.v & 3) == (f.v & 3); }); counts(0, 0, NOCOPY); }
      CHECK(made() == 0, NOCOPY); m.n = 0; for (It i = s.begin(); i != s.end(); ++i) { CHECK(sx_gget(i.current()) == LIVE, "a removal leaves a moved-from element"); m.push(i->v); } break; }
    case 17: case 18: {  // construction from a sequence, moved or copied; equal and unequal allocators
      u64 how = sx_split(sx_range("how", 0, 2)); mark();
#if ALLOC == 1 || ALLOC == 2
      A other(how == 2 ? 5 : s.get_allocator().id);
#else
      A other;
#endif
      if (kind == 17) { S b(how == 0 ? S(std::move(s)) : S(std::move(s), other)); counts(0, 0, NOCOPY); CHECK(made() == 0, NOCOPY); same_by_index(b, m, NOCOPY); s.clear(); m.n = 0; }
      else { S const& c = s; if (how == 0) { S b(c); counts(m.n, m.n, ONCE); same_by_index(b, m, ONCE); } else { S b(c, other); counts(m.n, m.n, ONCE); same_by_index(b, m, ONCE); } CHECK(made() == 0, ONCE); for (CIt i = c.begin(); i != c.end(); ++i) CHECK(sx_gget(i.current()) == LIVE, SRC); }
      break; }
    case 19: case 20: {  // assignment from a sequence, moved or copied; equal and unequal allocators
      if (kind == 20 && sx_bool("self")) { S& r = s; mark(); s = r; counts(0, m.n, ONCE); break; }
#if ALLOC == 1 || ALLOC == 2
      S b((A(sx_bool("unequal") ? 5 : 1)));
#else
      S b;
#endif
      Model o; { u64 k = sx_split(sx_range("bn", 0, sx_param("bn", 4))); for (u64 i = 0; i < k; ++i) add(b, o, i / 2); }
      mark();
      if (kind == 19) { b = std::move(s); counts(0, 0, NOCOPY); CHECK(made() == 0, NOCOPY); same_by_index(b, m, NOCOPY); s.clear(); m.n = 0; }
      else { S const& c = s; b = c; counts(m.n, m.n, ONCE); CHECK(made() == 0, ONCE); same_by_index(b, m, ONCE); for (CIt i = c.begin(); i != c.end(); ++i) CHECK(sx_gget(i.current()) == LIVE, SRC); }
      break; }
    default: {  // swap; lists
      if (sx_bool("list")) {
        u64 x = sx_val("x"), y = sx_val("y"), p = sx_split(sx_range("p", 0, m.n)), how = sx_split(sx_range("how", 0, 2)); std::initializer_list<T> l = {T(x), T(y)}; mark();
        if (how == 0) { s.insert(s.nth(p), l); m.insert(p, y); m.insert(p, x); } else { if (how == 1) s.assign(l); else s = l; m.n = 0; m.push(x); m.push(y); }
        counts(2, 2, ONCE); CHECK(made() == 0, ONCE); CHECK(l.begin()[0].v == x && l.begin()[1].v == y && sx_gget(l.begin()) == LIVE && sx_gget(l.begin() + 1) == LIVE, SRC); break; }
      S b; Model o; { u64 k = sx_split(sx_range("bn", 0, sx_param("bn", 4))); for (u64 i = 0; i < k; ++i) add(b, o, i / 2); }
      mark(); if (sx_bool("friend")) { using std::swap; swap(s, b); } else s.swap(b);
      CHECK(elem_ops() == b4.live * 0 + b4.def + b4.val + b4.copy + b4.move + b4.casgn + b4.masgn + b4.dtor, "swap touches elements"); same_by_index(b, m, NOCOPY); m = o; break; }
  }
  same_by_index(s, m, "the contents differ from the list");
  for (It i = s.begin(); i != s.end(); ++i) CHECK(sx_gget(i.current()) == LIVE, "a sequence holds a moved-from element");
  sx_trace(s.size()); sx_trace(s.height());
  }
  CHECK(st.live == 0, "elements leak or die twice");
  sx_cover("moves checked");
}
#endif
