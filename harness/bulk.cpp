// S03, S23: multi-element edits, constructors, assignment and single-pass sources against the list model.
#include "common.h"

// ---------------------------------------------------------------- single-pass source
struct Src { u64 n, cur; u64 v[MAXN]; u64 reads[MAXN]; bool ends; };
static Src src;
struct InIt {
  typedef std::input_iterator_tag iterator_category;
  typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T reference;
  u64 k;
  InIt() : k(0) {}
  explicit InIt(u64 i) : k(i) {}
  T operator*() const {
    CHECK(k < src.n, "a single-pass source is read past its end");
    CHECK(k == src.cur, "a single-pass source position is revisited");
    ++src.reads[k];
    return mk(src.v[k]);
  }
  InIt& operator++() {
    CHECK(k < src.n, "a single-pass source is advanced past its end");
    CHECK(k == src.cur, "a copy of a single-pass iterator is advanced after another copy was");
    ++src.cur; ++k; return *this;
  }
  struct Proxy { T t; T operator*() const { return t; } };
  Proxy operator++(int) { Proxy p = {**this}; ++*this; return p; }
  friend bool operator==(InIt const& a, InIt const& b) { return a.k == b.k; }
  friend bool operator!=(InIt const& a, InIt const& b) { return a.k != b.k; }
};
static NOINLINE void fill_src(u64 c) { src.n = c; src.cur = 0; for (u64 i = 0; i < c; ++i) { src.v[i] = sx_val("in"); src.reads[i] = 0; } }
static NOINLINE void src_consumed() {
  CHECK(src.cur == src.n, "a single-pass source is not consumed to its end");
  for (u64 i = 0; i < src.n; ++i) CHECK(src.reads[i] == 1, "an element of a single-pass source is not read exactly once");
}
// forward (multi-pass) source
struct Arr { T* p; u64 n; Arr(u64 c) : p(static_cast<T*>(::operator new((c + 1) * sizeof(T)))), n(c) { for (u64 i = 0; i < c; ++i) ::new (p + i) T(mk(src.v[i])); } ~Arr() { for (u64 i = 0; i < n; ++i) p[i].~T(); ::operator delete(p); } };

static NOINLINE void pre(S& s, Model& m) {
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 8)));
  build(s, m, n, shape);
}
static NOINLINE void at_pos(S& s, Model const& m, It r, u64 p, const char* w) {
  CHECK(s.index_of(r) == p, w);
  if (p < m.n) CHECK(r.current() == std::addressof(s[p]), w); else CHECK(r == s.end(), w);
}
#define IL(f) do { u64 const* v = src.v; switch (c) { case 0: f({}); break; case 1: f({mk(v[0])}); break; case 2: f((std::initializer_list<T>{mk(v[0]), mk(v[1])})); break; \
  case 3: f((std::initializer_list<T>{mk(v[0]), mk(v[1]), mk(v[2])})); break; default: c = 4; f((std::initializer_list<T>{mk(v[0]), mk(v[1]), mk(v[2]), mk(v[3])})); } } while (0)

RUN(h_ctor) {
  u64 kind = sx_split(sx_range("kind", 0, 5));
  u64 c = sx_split(sx_range("count", sx_param("cmin", 0), sx_param("c", 9)));
  Model m;
  if (kind >= 2) { if (kind == 5 && c > 4) c = 4; fill_src(c); for (u64 i = 0; i < c; ++i) m.push(src.v[i]); }
  switch (kind) {
    case 0: { u64 x = sx_val("x"); for (u64 i = 0; i < c; ++i) m.push(x); T t = mk(x); S s((S::size_type)c, t); same(s, m, "construction from a count and a value"); use_up(s, m, "a constructed sequence does not take further edits"); break; }
    case 1: { for (u64 i = 0; i < c; ++i) m.push(0); S s((S::size_type)c); same(s, m, "construction from a count"); use_up(s, m, "a constructed sequence does not take further edits"); break; }
    case 2: { Arr a(c); S s(a.p, a.p + c); same(s, m, "construction from a range"); use_up(s, m, "a constructed sequence does not take further edits"); break; }
    case 3: { S s((InIt(0)), InIt(c)); src_consumed(); same(s, m, "construction from a single-pass range"); use_up(s, m, "a constructed sequence does not take further edits"); break; }
    case 4: { Arr a(c); S t(a.p, a.p + c); S s(t.rbegin(), t.rend()); Model r; for (u64 i = c; i-- > 0;) r.push(m.a[i]); same(s, r, "construction from the reverse range of another sequence"); use_up(s, r, "a constructed sequence does not take further edits"); break; }
    default: {
#define F(l) { S s(l); same(s, m, "construction from a list"); use_up(s, m, "a constructed sequence does not take further edits"); }
      if (c) { std::initializer_list<T> e; (void)e; IL(F); } else { S s(std::initializer_list<T>{}); same(s, m, "construction from an empty list"); use_up(s, m, "a constructed sequence does not take further edits"); }
#undef F
    }
  }
  sx_trace(c); sx_cover("construction checked");
}

enum { BULK = 13 };
static NOINLINE void bulk_op(S& s, Model& m, u64 kind) {
  u64 c = 0, p = 0, q = 0; It r;
  const char* w = "multi-element edit: returned iterator";
  if (kind <= 3 || (kind >= 5 && kind <= 11)) c = sx_split(sx_range("count", 0, kind == 2 || kind == 7 || kind == 8 ? 4 : sx_param("c", 5)));
  if (kind <= 3) p = sx_range("p", 0, m.n);
  if ((kind >= 1 && kind <= 3) || (kind >= 6 && kind <= 9)) fill_src(c);
  switch (kind) {
    case 0: { u64 x = sx_val("x"); T t = mk(x); r = s.insert(s.nth(p), (S::size_type)c, t); p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p, x); at_pos(s, m, r, p, w); break; }
    case 1: { Arr a(c); r = s.insert(s.nth(p), a.p, a.p + c); p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p + i, src.v[i]); at_pos(s, m, r, p, w); break; }
    case 2: {
#define F(l) r = s.insert(s.nth(p), l)
      if (c) IL(F); else r = s.insert(s.nth(p), std::initializer_list<T>{});
#undef F
      p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p + i, src.v[i]); at_pos(s, m, r, p, w); break; }
    case 3: { r = s.insert(s.nth(p), InIt(0), InIt(c)); src_consumed(); p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p + i, src.v[i]); at_pos(s, m, r, p, w); break; }
    case 4: {
      p = sx_range("p", 0, m.n); q = sx_range("q", 0, m.n); sx_assume(p <= q);
      r = s.erase(s.nth(p), s.nth(q)); p = sx_split(p); q = sx_split(q); m.erase(p, q); at_pos(s, m, r, p, "range erasure: returned iterator"); break; }
    case 5: { u64 x = sx_val("x"); T t = mk(x); s.assign((S::size_type)c, t); m.n = 0; for (u64 i = 0; i < c; ++i) m.push(x); break; }
    case 6: { Arr a(c); s.assign(a.p, a.p + c); m.n = 0; for (u64 i = 0; i < c; ++i) m.push(src.v[i]); break; }
    case 7: {
#define F(l) s.assign(l)
      if (c) IL(F); else s.assign(std::initializer_list<T>{});
#undef F
      m.n = 0; for (u64 i = 0; i < c; ++i) m.push(src.v[i]); break; }
    case 8: {
#define F(l) s = l
      if (c > 1) IL(F); else if (c) s = std::initializer_list<T>{mk(src.v[0])}; else s = std::initializer_list<T>{};
#undef F
      m.n = 0; for (u64 i = 0; i < c; ++i) m.push(src.v[i]); break; }
    case 9: { s.assign(InIt(0), InIt(c)); src_consumed(); m.n = 0; for (u64 i = 0; i < c; ++i) m.push(src.v[i]); break; }
    case 10: case 11: {
      u64 d = sx_split(sx_range("newsize", 0, m.n + sx_param("c", 5))), x = 0;
      if (kind == 10) s.resize((S::size_type)d); else { x = sx_val("x"); T t = mk(x); s.resize((S::size_type)d, t); }
      if (d < m.n) m.n = d; else while (m.n < d) m.push(x);
      break; }
    default: s.clear(); m.n = 0; CHECK(s.height() == 0 && s.begin() == s.end(), "clear leaves a tree"); break;
  }
}
static NOINLINE void bulk_entry(u64 lo, u64 hi) {
  S s; Model m; pre(s, m);
  u64 steps = sx_param("steps", 1);
  for (u64 i = 0; i < steps; ++i) {
    bulk_op(s, m, sx_split(sx_range("kind", lo, hi)));
    same(s, m, "after a multi-element edit the contents differ from the list");
  }
  sx_trace(s.height()); sx_trace(s.size());
  use_up(s, m, "after a multi-element edit the sequence does not take further edits");
  sx_cover("bulk edit checked");
}
RUN(h_bulk) { bulk_entry(sx_param("kind_lo", 0), sx_param("kind_hi", BULK - 1)); }

// single-pass sources only, larger counts
RUN(h_input) {
  S s; Model m; pre(s, m);
  u64 c = sx_split(sx_range("count", 0, sx_param("c", 9)));
  fill_src(c);
  if (sx_bool("assign")) { s.assign(InIt(0), InIt(c)); m.n = 0; for (u64 i = 0; i < c; ++i) m.push(src.v[i]); }
  else { u64 p = sx_range("p", 0, m.n); It r = s.insert(s.nth(p), InIt(0), InIt(c)); p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p + i, src.v[i]); at_pos(s, m, r, p, "insert from a single-pass range: returned iterator"); }
  src_consumed();
  same(s, m, "after an edit from a single-pass range the contents differ from the list");
  sx_trace(s.size());
  use_up(s, m, "after an edit from a single-pass range the sequence does not take further edits");
  sx_cover("single-pass edit checked");
}
RUN(h_input_ctor) {
  u64 c = sx_split(sx_range("count", 0, sx_param("c", 12)));
  fill_src(c); Model m; for (u64 i = 0; i < c; ++i) m.push(src.v[i]);
  S s((InIt(0)), InIt(c));
  src_consumed(); same(s, m, "construction from a single-pass range");
  sx_trace(s.size());
  use_up(s, m, "a sequence constructed from a single-pass range does not take further edits");
  sx_cover("single-pass construction checked");
}
