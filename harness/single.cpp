// S01, S02, S07: single-element edits at every position of trees of every small size and several fillings.
#include "common.h"

static NOINLINE void pre(S& s, Model& m, u64& shape) {
  u64 lo = sx_param("nmin", 0), hi = sx_param("n", 10);
  shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range("n", lo, hi));
  build(s, m, n, shape);
}
enum { INS_KINDS = 5 };
// one insertion of value x at position p (symbolic); p is pinned for push_front / push_back
static NOINLINE It ins(S& s, u64 kind, u64 p, u64 x) {
  switch (kind) {
    case 0: { T t = mk(x); return s.insert(CIt(s.nth(p)), t); }
    case 1: return s.insert(s.begin() + (S::difference_type)p, mk(x));
    case 2: return s.emplace(s.cend() - (S::difference_type)(s.size() - p), mk(x));
    case 3: { T t = mk(x); if (sx_bool("rv")) s.push_front(std::move(t)); else if (sx_bool("em")) s.emplace_front(mk(x)); else s.push_front(t); return s.begin(); }
    default: { T t = mk(x); if (sx_bool("rv")) s.push_back(std::move(t)); else if (sx_bool("em")) s.emplace_back(mk(x)); else s.push_back(t); return s.penultimate(); }
  }
}

RUN(h_insert) {
  S s; Model m; u64 shape; pre(s, m, shape);
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", INS_KINDS - 1)));
  u64 p = kind == 3 ? 0 : kind == 4 ? m.n : sx_range("p", 0, m.n);
  u64 x = sx_val("x");
  It r = ins(s, kind, p, x);
  CHECK(val_of(*r) == x, "the returned iterator does not refer to the inserted element");
  CHECK(s.index_of(r) == p, "the returned iterator has another index than the insertion position");
  p = sx_split(p);
  CHECK(r.current() == std::addressof(s[p]), "the returned iterator does not point at the element of the insertion position");
  m.insert(p, x);
  same(s, m, "after a single insertion the contents differ from the list");
  sx_trace(s.height()); sx_trace(s.size()); if (m.n > 1) sx_trace(m.a[m.n / 2]);
  sx_cover("insert checked");
}

RUN(h_erase) {
  S s; Model m; u64 shape; pre(s, m, shape);
  sx_assume(m.n > 0);
  u64 kind = sx_split(sx_range("kind", 0, 2));
  u64 p = kind == 1 ? 0 : kind == 2 ? m.n - 1 : sx_range("p", 0, m.n - 1);
  It r;
  if (kind == 0) {
    r = s.erase(CIt(s.nth(p)));
    CHECK(s.index_of(r) == p, "erase returns an iterator with another index than the erased position");
    CHECK((r == s.end()) == (p == s.size()), "erase of the last element does not return the end iterator");
  } else if (kind == 1) s.pop_front(); else s.pop_back();
  p = sx_split(p);
  m.erase(p);
  if (kind == 0 && p < m.n) {
    CHECK(val_of(*r) == m.a[p], "erase does not return an iterator to the element after the erased one");
    CHECK(r.current() == std::addressof(s[p]), "erase returns an iterator to another place than the following element's");
  }
  same(s, m, "after a single erasure the contents differ from the list");
  sx_trace(s.height()); sx_trace(s.size()); if (m.n > 1) sx_trace(m.a[m.n / 2]);
  sx_cover("erase checked");
}

// a history of symbolic edits from a built tree
RUN(h_history) {
  S s; Model m; u64 shape; pre(s, m, shape);
  u64 steps = sx_param("steps", 2);
  for (u64 i = 0; i < steps; ++i) {
    bool e = m.n != 0 && sx_bool("erase");
    if (e) { u64 p = sx_range("p", 0, m.n - 1); s.erase(s.nth(p)); p = sx_split(p); m.erase(p); }
    else { u64 p = sx_range("p", 0, m.n), x = sx_val("x"); s.insert(s.nth(p), mk(x)); p = sx_split(p); m.insert(p, x); }
  }
  same(s, m, "after a history of edits the contents differ from the list");
  sx_trace(s.height()); sx_trace(s.size());
  sx_cover("history checked");
}

// ---------------------------------------------------------------- S07
static NOINLINE void usable(S& s, Model const& m, It r, u64 p) {
  It f = s.nth(p);
  CHECK(s.index_of(r) == p, "returned iterator: wrong index");
  CHECK(r == f && !(r != f) && r <= f && r >= f && !(r < f) && !(r > f), "returned iterator: compares unlike a fresh one");
  CHECK(r - f == 0, "returned iterator: distance to a fresh one is not zero");
  if (m.n == 0) { CHECK(r == s.begin() && r == s.end(), "returned iterator of an emptied sequence is not begin and end"); return; }
  CHECK(r.begin() == f.begin() && r.end() == f.end() && r.current() == f.current(), "returned iterator: exposes another block than a fresh one");
  // stepping to both ends
  { It i = r; u64 k = p; while (k < m.n) { CHECK(i.current() == std::addressof(s[k]), "returned iterator: stepping forward goes astray"); ++i; ++k; } CHECK(i == s.end(), "returned iterator: stepping forward misses the end"); }
  { It i = r; u64 k = p; while (k > 0) { --i; --k; CHECK(i.current() == std::addressof(s[k]), "returned iterator: stepping backward goes astray"); } CHECK(i == s.begin(), "returned iterator: stepping backward misses the beginning"); }
  // jumping
  u64 q = sx_range("q", 0, m.n);
  It j = r + ((S::difference_type)q - (S::difference_type)p);
  CHECK(s.index_of(j) == q, "returned iterator: jump has the wrong index");
  if (q < m.n) CHECK(j.current() == std::addressof(s[q]), "returned iterator: jump goes astray"); else CHECK(j == s.end() && j.current() == s.end().current(), "returned iterator: jump misses the end");
}
RUN(h_chain) {
  S s; Model m; u64 shape; pre(s, m, shape);
  u64 steps = sx_param("steps", 2);
  u64 p = sx_range("p0", 0, m.n);
  It r = s.nth(p);
  p = sx_split(p);
  for (u64 i = 0; i < steps; ++i) {
    bool e = p < m.n && sx_bool("erase");
    if (e) { r = s.erase(r); m.erase(p); }
    else {
      u64 x = sx_val("x"); r = s.insert(r, mk(x)); m.insert(p, x);
      if (sx_bool("step")) { ++r; ++p; }
    }
    if (p > 0 && sx_bool("back")) { --r; --p; }
  }
  same_by_index(s, m, "edits chained through returned iterators give other contents than the list");
  usable(s, m, r, p);
  sx_trace(s.height()); sx_trace(s.size());
  sx_cover("chain checked");
}

// iterators returned by edits of several elements
RUN(h_chain_bulk) {
  S s; Model m; u64 shape; pre(s, m, shape);
  u64 p = sx_range("p0", 0, m.n), kind = sx_split(sx_range("kind", 0, 3)), c = 0; It r;
  if (kind < 3) c = sx_split(sx_range("count", 0, sx_param("c", 5)));
  switch (kind) {
    case 0: { u64 x = sx_val("x"); T t = mk(x); r = s.insert(s.nth(p), (S::size_type)c, t); p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p, x); break; }
    case 1: { S o; Model om; build(o, om, c, 0); r = s.insert(s.nth(p), o.begin(), o.end()); p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p + i, om.a[i]); break; }
    case 2: { u64 x = sx_val("x"), y = sx_val("y"); if (c & 1) r = s.insert(s.nth(p), {mk(x)}); else r = s.insert(s.nth(p), {mk(x), mk(y), mk(x)}); p = sx_split(p); if (c & 1) m.insert(p, x); else { m.insert(p, x); m.insert(p, y); m.insert(p, x); } break; }
    default: { u64 q = sx_range("q", 0, m.n); sx_assume(p <= q); r = s.erase(s.nth(p), s.nth(q)); p = sx_split(p); q = sx_split(q); m.erase(p, q); break; }
  }
  if (p < m.n && sx_bool("erase")) { r = s.erase(r); m.erase(p); } else if (sx_bool("insert")) { u64 z = sx_val("z"); r = s.insert(r, mk(z)); m.insert(p, z); }
  same_by_index(s, m, "edits chained through returned iterators give other contents than the list");
  usable(s, m, r, p);
  sx_trace(s.height()); sx_trace(s.size());
  sx_cover("bulk chain checked");
}

// ---------------------------------------------------------------- one or two edits of trees with any filling (S01, S02, S07, S08)
RUN(h_thin) {
  S s; Model m;
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", 2))), n = sx_split(sx_range("n", sx_param("nmin", 6), sx_param("n", 12)));
  thin(s, m, n, shape, sx_param("blocks", 5));
  u64 what = sx_param("what", 7), steps = sx_param("steps", 1); It r; u64 p = 0;
  for (u64 i = 0; i < steps; ++i) {
    u64 kind = sx_param("kind", 2);  // 0 insert, 1 erase, 2 either
    bool e = m.n && (kind == 1 || (kind == 2 && sx_bool("erase")));
    p = sx_range("p", 0, e ? m.n - 1 : m.n);
    if (e) { r = s.erase(s.nth(p)); p = sx_split(p); m.erase(p); }
    else { u64 x = sx_val("x"); r = s.insert(s.nth(p), mk(x)); p = sx_split(p); m.insert(p, x); }
    if (what & 4) balanced(s);
  }
  if (what & 1) {
    CHECK(s.index_of(r) == p, "an edit of a thinned tree returns an iterator with another index");
    if (p < m.n) CHECK(r.current() == std::addressof(s[p]), "an edit of a thinned tree returns an iterator to another element"); else CHECK(r == s.end(), "an edit of a thinned tree does not return the end");
    same(s, m, "after edits of a thinned tree the contents differ from the list");
  }
  if (what & 2) usable(s, m, r, p);
  sx_trace(s.height()); sx_trace(s.size()); sx_cover("thin checked");
}
// ---------------------------------------------------------------- emplace forwards its arguments: none, one or several
#if ELEM == 1
struct Two : Elem { u64 w; Two() : Elem(7), w(8) {} Two(u64 a, u64 b) : Elem(a), w(b) {} Two(u64 a) : Elem(a), w(9) {} Two(std::initializer_list<u64> l) : Elem(77 + l.size()), w(99) {} };
typedef boost::segmented_tree::seq<Two, std::allocator<Two>, SEGN * sizeof(Two), 16 + 16 * BASEN> S2;
RUN(h_emplace) {
  S2 s; u64 v[MAXN], w[MAXN], n = sx_split(sx_range("n", 0, sx_param("n", 8))), shape = sx_split(sx_range("shape", 0, 2));
  for (u64 i = 0; i < n; ++i) { u64 p = shape == 0 ? i : shape == 1 ? 0 : i / 2, x = sx_val("v"); s.emplace(s.nth(p), x, i); for (u64 k = i; k > p; --k) { v[k] = v[k - 1]; w[k] = w[k - 1]; } v[p] = x; w[p] = i; }
  u64 where = sx_split(sx_range("where", 0, 2)), args = sx_split(sx_range("args", 0, 2)), p = where == 0 ? sx_range("p", 0, n) : where == 1 ? 0 : n, x = sx_val("x"), y = sx_val("y");
  S2::iterator r;
  switch (where * 3 + args) {
    case 0: r = s.emplace(s.nth(p)); break;
    case 1: r = s.emplace(s.nth(p), x); break;
    case 2: r = s.emplace(s.nth(p), x, y); break;
    case 3: s.emplace_front(); r = s.begin(); break;
    case 4: s.emplace_front(x); r = s.begin(); break;
    case 5: s.emplace_front(x, y); r = s.begin(); break;
    case 6: s.emplace_back(); r = s.penultimate(); break;
    case 7: s.emplace_back(x); r = s.penultimate(); break;
    default: s.emplace_back(x, y); r = s.penultimate(); break;
  }
  u64 a = args == 0 ? 7 : x, b = args == 0 ? 8 : args == 1 ? 9 : y;
  p = sx_split(p);
  CHECK(s.index_of(r) == p && r->v == a && r->w == b, "emplace does not return the element it made");
  CHECK(s.size() == n + 1, "emplace does not add exactly one element");
  u64 k = 0; for (S2::const_iterator i = s.begin(); i != s.end(); ++i, ++k) { u64 o = k < p ? k : k - 1; CHECK(k == p ? (i->v == a) & (i->w == b) : (i->v == v[o]) & (i->w == w[o]), "emplace gives other contents than the list"); }
  CHECK(k == n + 1 && st.live == n + 1, "emplace leaves a wrong number of elements");
  sx_trace(s.height()); sx_cover("emplace checked");
}
#endif
