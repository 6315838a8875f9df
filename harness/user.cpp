// S26: documented work of multi-element operations.  S27: exceptions thrown by the caller's predicates, comparators and
// iterators.  S28: iterators and references as handles: writes, sort and reverse.
#include "common.h"
#include <algorithm>
static NOINLINE void pre(S& s, Model& m) {
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 8)));
  build(s, m, n, shape);
}
static NOINLINE void consistent(S& s, const char* w) {
  u64 n = s.size(), k = 0;
  for (It i = s.begin(), e = s.end(); i != e; ++i) {
    CHECK(k < n, w);
#if ELEM == 1
    CHECK(sx_gget(std::addressof(*i)) != RAW, w);
#endif
    CHECK(std::addressof(*i) == std::addressof(s[k]), w);
    ++k;
  }
  CHECK(k == n, w);
  for (It i = s.end(), b = s.begin(); i != b;) { --i; --k; CHECK(i.current() == std::addressof(s[k]), w); }
  CHECK(k == 0, w);
  CHECK((s.height() == 0) == (n == 0) && s.empty() == (n == 0), w);
}
static NOINLINE void nothing_left() {
#if ELEM == 1
  CHECK(st.live == 0, "element objects outlive the sequences (or were destroyed twice)");
#endif
#if ALLOC == 1 || ALLOC == 2
  CHECK(st.blocks == 0 && st.allocs == st.frees, "blocks are still outstanding after destruction");
#endif
}

#if ELEM == 1
// ---------------------------------------------------------------- S27
static u64 cb_left;   // the cb_left-th callback throws; 0: never
static inline void callback() { if (cb_left && --cb_left == 0) throw 9; }
struct TPred { bool operator()(T const& x) const { callback(); x.must_live("a predicate is called with a dead element"); return x.v & 1; } };
struct TSame { bool operator()(T const& a, T const& b) const { callback(); a.must_live("a predicate is called with a dead element"); b.must_live("a predicate is called with a dead element"); return ((a.v ^ b.v) & 1) == 0; } };
struct TLess { bool operator()(T const& a, T const& b) const { callback(); a.must_live("a comparator is called with a dead element"); b.must_live("a comparator is called with a dead element"); return a.v < b.v; } };
struct TIt {  // single-pass iterator; comparison, increment and dereference may throw
  typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
  T const* p;
  reference operator*() const { callback(); return *p; }
  TIt& operator++() { callback(); ++p; return *this; }
  TIt operator++(int) { TIt r = *this; ++*this; return r; }
  bool operator==(TIt const& o) const { callback(); return p == o.p; }
  bool operator!=(TIt const& o) const { callback(); return p != o.p; }
};
#if ALLOC == 1 || ALLOC == 2
#define OTHER_ALLOC A(3)
#else
#define OTHER_ALLOC A()
#endif
static NOINLINE bool call(S& s, S& o, Model& m, u64 kind, T const* src, u64 c, u64 k) {
  TIt f = {src}, l = {src + c};
  try {
    switch (kind) {
      case 0: cb_left = k; s.remove_if(TPred()); break;
      case 1: cb_left = k; s.unique(TSame()); break;
      case 2: cb_left = k; s.sort(TLess()); break;
      case 3: cb_left = k; s.merge(o, TLess()); break;
      case 4: cb_left = k; s.merge(std::move(o), TLess()); break;
      case 5: { CIt p = s.nth(sx_range("p", 0, m.n)); cb_left = k; s.insert(p, f, l); break; }
      case 6: cb_left = k; s.assign(f, l); break;
      case 7: { cb_left = k; S t(f, l); cb_left = 0; s.swap(t); break; }
      case 8: { cb_left = k; S t(f, l, OTHER_ALLOC); cb_left = 0; CHECK(t.size() == c, "a constructed sequence has another size"); break; }
      case 10: { T v = mk(sx_val("y")); st.cmp_left = k; s.remove(v); break; }
      case 11: st.cmp_left = k; s.unique(); break;
      case 12: st.cmp_left = k; s.sort(); break;
      case 13: st.cmp_left = k; s.merge(o); break;
      default: { cb_left = k; std::stable_sort(s.begin(), s.end(), TLess()); break; }
    }
  } catch (int e) { cb_left = 0; st.cmp_left = 0; CHECK(e == 9, "another exception than the callback's arrives"); return true; }
  cb_left = 0; st.cmp_left = 0; return false;
}
RUN(h_callback) {
  {
    S s, o; Model m, om; pre(s, m);
    u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 13)));
    if (kind == 3 || kind == 4 || kind == 13) { u64 c = sx_split(sx_range("other", 0, sx_param("o", 3))); for (u64 i = 0; i < c; ++i) add(o, om, i / 2); }
    u64 c = 0;
    alignas(T) unsigned char raw[sizeof(T) * 48]; T* src = reinterpret_cast<T*>(raw);
    if (kind >= 5 && kind <= 8) { c = sx_split(sx_range("count", 0, sx_param("c", 4))); for (u64 i = 0; i < c; ++i) new (src + i) T(sx_val("x")); }
    u64 k = sx_split(sx_range("throws", 1, sx_param("k", 6))), live = st.live, sz = m.n + om.n;
    bool threw = call(s, o, m, kind, src, c, k);
    CHECK(st.live == s.size() + o.size() + c, "an exception from the caller's code leaks or destroys element objects");
    consistent(s, "after an exception from the caller's code the sequence is not a valid run of whole elements");
    consistent(o, "after an exception from the caller's code the other sequence is not a valid run of whole elements");
    if (threw) {
      if (kind <= 2 || (kind >= 9 && kind <= 12)) CHECK(s.size() <= m.n, "an exception from the caller's code adds elements");
      if (kind == 3 || kind == 4 || kind == 13) CHECK(s.size() + o.size() == sz, "an exception from the comparator changes the number of elements");
      if (kind == 7 || kind == 8) { same(s, m, "a failed construction changes another sequence"); CHECK(st.live == live, "a failed construction leaks elements"); }
      if (kind == 5) CHECK(s.size() >= m.n && s.size() <= m.n + c, "a failed range insertion loses or invents elements");
      sx_cover("callback threw");
    } else sx_cover("callback did not throw");
    if (sx_bool("continue")) { u64 n = s.size(), y = sx_val("y"); s.insert(s.nth(n / 2), mk(y)); CHECK(s.size() == n + 1 && val_of(s[n / 2]) == y, "the sequence does not work after an exception from the caller's code");
      if (threw) { Model now; for (It i = s.begin(); i != s.end(); ++i) now.push(val_of(*i)); use_up(s, now, "the sequence does not work after an exception from the caller's code", 6); } }
    if (c) { bool same_src = true; for (u64 i = 0; i < c; ++i) same_src &= sx_gget(src + i) == LIVE; CHECK(same_src, "source elements of a failed operation were moved or destroyed"); for (u64 i = 0; i < c; ++i) (src + i)->~T(); }
    sx_trace(s.size()); sx_trace(o.size());
  }
  nothing_left();
}
#endif

// ---------------------------------------------------------------- S28
struct Up { bool operator()(T const& a, T const& b) const { return val_of(a) < val_of(b); } };
RUN(h_handles) {
  S s; Model m; pre(s, m); sx_assume(m.n > 0);
  S const& c = s;
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 17)));
  u64 p = sx_range("p", 0, m.n - 1), x = sx_val("x");
  switch (kind) {
    case 0: s[p] = mk(x); break;
    case 1: s.at(p) = mk(x); break;
    case 2: *s.nth(p) = mk(x); break;
    case 3: s.begin()[(S::difference_type)p] = mk(x); break;
    case 4: { It i = s.end(); i -= (S::difference_type)(m.n - p); *i = mk(x); break; }
    case 5: { S::reverse_iterator r = s.rbegin(); r += (S::difference_type)p; *r = mk(x); p = m.n - 1 - p; break; }
    case 6: { It i = s.nth(p); *i.current() = mk(x); break; }
    case 7: { It i = s.nth(p); u64 q = sx_split(p); T* b = std::addressof(*i.begin()); T* e = b + (i.end() - i.begin()); u64 first = q - (u64)(i.current() - i.begin()); for (T* w = b; w != e; ++w) { u64 y = sx_val("y"); *w = mk(y); m.a[first + (u64)(w - b)] = y; } x = m.a[q]; break; }
    case 8: s.front() = mk(x); p = 0; break;
    case 9: s.back() = mk(x); p = m.n - 1; break;
    case 10: { u64 q = sx_range("q", 0, m.n - 1); It i = s.nth(p), j = s.nth(q); std::iter_swap(i, j); u64 a = sx_split(p), b = sx_split(q), t = m.a[a]; m.a[a] = m.a[b]; m.a[b] = t; p = a; x = m.a[a]; break; }
    case 11: { *s.penultimate() = mk(x); p = m.n - 1; break; }
    case 12: { CIt ci = s.nth(p); It w = s.nth(p); *w = mk(x); CHECK(val_of(*ci) == x, "a const iterator does not see a write to its element"); break; }
    case 15: { It i = s.nth(p); *i.operator->() = mk(x); break; }
    case 16: { S::reverse_iterator r = s.rbegin() + (S::difference_type)p; *r.operator->() = mk(x); p = m.n - 1 - p; break; }
    case 17: { u64 q = sx_split(p); It i = s.begin(); for (u64 k = 0; k < q; ++k) i++; *i = mk(x); break; }
    case 13: case 14: {  // iterators survive sort and reverse and then refer to the same positions
      static const void* at[MAXN]; u64 k = 0;
      for (It i = s.begin(), e = s.end(); i != e; ++i) at[k++] = std::addressof(*i);
      It i = s.nth(p), b = s.begin(), e = s.end(); CIt ci = c.nth(p);
      if (kind == 14) { sx_assume(m.n <= sx_param("sort", 4)); s.sort(Up()); } else s.reverse();
      u64 q = sx_split(p);
      CHECK(i == s.nth(q) && ci == c.nth(q) && b == s.begin() && e == s.end(), "an iterator does not keep its position across sort or reverse");
      CHECK(std::addressof(*i) == std::addressof(s[q]) && std::addressof(*ci) == std::addressof(c[q]), "an iterator does not refer to its position's element after sort or reverse");
      k = 0; for (It j = b; j != e; ++j, ++k) { CHECK(k < m.n && std::addressof(*j) == std::addressof(s[k]), "an iterator pair from before sort or reverse does not traverse the sequence"); CHECK(at[k] == std::addressof(s[k]), "sort or reverse moves the element storage"); }
      CHECK(k == m.n, "an iterator pair from before sort or reverse does not traverse the sequence");
      if (kind == 13) for (u64 a = 0, z = m.n - 1; a < z; ++a, --z) { u64 t = m.a[a]; m.a[a] = m.a[z]; m.a[z] = t; }
      else for (u64 a = 0; a < m.n; ++a) m.a[a] = val_of(s[a]);
      *i = mk(x); p = q; break; }
  }
  p = sx_split(p); m.a[p] = x;
  same(s, m, "a write through one element's handle changes something else or is lost");
  CHECK(val_of(*s.nth(p).operator->()) == x && val_of(*c.nth(p).operator->()) == x && val_of(*(c.rbegin() + (S::difference_type)(m.n - 1 - p)).operator->()) == x, "a write through a handle is not seen by ->");
  CHECK(std::addressof(*c.nth(p).operator->()) == std::addressof(c[p]) && std::addressof(*s.nth(p).operator->()) == std::addressof(s.at(p)), "-> refers to another object than the other routes");
  CHECK(val_of(c[p]) == x && val_of(*c.nth(p)) == x, "a write through a handle is not seen by another route");
  sx_trace(m.n); sx_cover("handles checked");
}

// ---------------------------------------------------------------- S26
static u64 w_start;
static NOINLINE void w_begin() { w_start = sx_work(); }
static NOINLINE void w_end(u64 limit, const char* what) { CHECK(sx_work() - w_start <= limit, what); }
struct Odd { bool operator()(T const& x) const { return val_of(x) & 1; } };
struct SameDiv { bool operator()(T const& a, T const& b) const { return val_of(a) / 3 == val_of(b) / 3; } };
struct Never { bool operator()(T const&) const { return false; } };
static u64 n_cmp;
struct Count { bool operator()(T const& a, T const& b) const { ++n_cmp; return val_of(a) < val_of(b); } };
static u64 log2up(u64 n) { u64 k = 0; while ((1ull << k) < n) ++k; return k; }
static u64 pat(u64 how, u64 i, u64 n) { return how == 0 ? i : how == 1 ? n - i : how == 2 ? (i * 37 + 11) % (n + 1) : 5; }
RUN(h_bulk_work) {
  S s; S const& c = s;
  u64 n = sx_param("n", 300), shape = sx_split(sx_range("shape", 0, sx_param("shape_hi", 2))), K = sx_param("factor", 20), P = sx_param("per_element", 200);
  for (u64 i = 0; i < n; ++i) s.insert(s.nth(shape == 0 ? i : shape == 1 ? 0 : (i * 7 + 3) % (i + 1)), mk(i));
  u64 h = s.height() + 1, lookup = K * (h + 1) * BASEMAX + 10 * K, edit = 3 * lookup + 10 * K * SEGMAX;
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 17)));
  u64 cs = sx_split(sx_range("c", 0, 3)), M = cs == 0 ? 0 : cs == 1 ? 1 : cs == 2 ? 7 : 40, p = 0;
  if (kind <= 4) p = sx_range("p", 0, n - M); else if (cs) sx_assume(cs == 3);
  T const v = mk(7); S o; if (kind == 1 || kind == 4 || kind >= 11) for (u64 i = 0; i < (kind >= 11 ? n : M); ++i) o.push_back(mk(i));
  u64 Z = M + 1;
  switch (kind) {
    case 0: { CIt i = s.nth(p); w_begin(); s.insert(i, (S::size_type)M, v); w_end(Z * edit, "a counted insertion costs more than M log N"); break; }
    case 1: { CIt i = s.nth(p); w_begin(); s.insert(i, o.cbegin(), o.cend()); w_end(Z * edit, "a range insertion costs more than M log N"); break; }
    case 2: { CIt i = s.nth(p), j = s.nth(p + M); w_begin(); s.erase(i, j); w_end(Z * edit, "a range erasure costs more than M log N"); CHECK(s.size() == n - M, "erased"); break; }
    case 3: { CIt i = s.nth(p); S t; for (u64 k = 0; k < n; ++k) t.push_back(mk(k)); CIt a = t.nth(n / 2 - M / 2), b = t.nth(n / 2 - M / 2 + M); w_begin(); s.splice(i, t, a, b); w_end(2 * Z * edit, "a range splice costs more than M log N"); break; }
    case 4: { CIt i = s.nth(p); w_begin(); s.splice(i, o); w_end(2 * Z * edit, "a splice costs more than M log N"); CHECK(o.empty(), "spliced"); break; }
    case 5: w_begin(); s.resize((S::size_type)(n - M)); w_end(Z * edit, "shrinking costs more than M log N"); break;
    case 6: w_begin(); s.resize((S::size_type)(n + M), v); w_end(Z * edit, "growing costs more than M log N"); w_begin(); s.resize((S::size_type)(n + 2 * M)); w_end(Z * edit, "growing costs more than M log N"); break;
    case 7: w_begin(); s.assign((S::size_type)(n - M), v); w_end(P * n + Z * edit, "counted assignment costs more than min + M log N"); w_begin(); s.assign((S::size_type)n, v); w_end(P * n + Z * edit, "counted assignment costs more than min + M log N"); break;
    case 8: w_begin(); s.remove_if(Never()); w_end(P * n, "removing nothing costs more than linear work"); w_begin(); s.remove_if(Odd()); w_end(P * n + n * edit / 2, "removing costs more than linear work and one erasure per element"); break;
    case 9: w_begin(); s.reverse(); w_end(P * n, "reverse costs more than linear work"); break;
    case 10: w_begin(); s.unique(SameDiv()); w_end(P * n + n * edit, "unique costs more than linear work and one erasure per element"); break;
    case 11: { bool e = true; w_begin(); e = c == o; w_end(P * n + 4 * lookup, "comparing costs more than linear work"); sx_trace(e); w_begin(); e = c < o; w_end(P * n + 4 * lookup, "comparing costs more than linear work"); sx_trace(e); break; }
    case 12: { o.push_back(v); w_begin(); bool e = c == o; w_end(lookup, "sequences of different sizes are compared element by element"); CHECK(!e, "equal"); break; }
    case 13: w_begin(); s = o; w_end(P * n + 4 * edit, "assigning a sequence of the same size costs more than linear work"); break;
    case 14: { w_begin(); S t(o); w_end(n * edit, "copying costs more than N log N"); w_begin(); t.clear(); w_end(P * n, "clear costs more than linear work"); break; }
    case 15: {  // sort: about N log N comparisons, whatever the order
      u64 how = sx_split(sx_range("pattern", 0, 3)); u64 k = 0; for (It i = s.begin(), e = s.end(); i != e; ++i, ++k) *i = mk(pat(how, k, n));
      n_cmp = 0; s.sort(Count()); CHECK(n_cmp <= 2 * n * log2up(n) + 20, "sort makes more than about N log N comparisons");
      u64 last = 0; for (It i = s.begin(), e = s.end(); i != e; ++i) { CHECK(val_of(*i) >= last, "sort leaves the sequence unordered"); last = val_of(*i); } break; }
    case 16: {  // merge: linear number of comparisons
      u64 how = sx_split(sx_range("pattern", 0, 2)); u64 k = 0; for (It i = s.begin(), e = s.end(); i != e; ++i, ++k) *i = mk(how == 0 ? 2 * k : how == 1 ? k : n + k);
      n_cmp = 0; s.merge(o, Count()); CHECK(n_cmp <= 2 * (n + n) + 20, "merge makes more than a linear number of comparisons"); CHECK(s.size() == 2 * n && o.empty(), "merged");
      u64 last = 0; for (It i = s.begin(), e = s.end(); i != e; ++i) { CHECK(val_of(*i) >= last, "merge leaves the sequence unordered"); last = val_of(*i); } break; }
    default: { u64 before = s.size(); CIt i = s.nth(n / 2), j = o.nth(n / 3); w_begin(); s.splice(i, o, j); w_end(3 * edit, "splicing one element costs more than logarithmic work"); CHECK(s.size() == before + 1 && o.size() == n - 1, "spliced"); break; }
  }
  sx_trace(s.size()); sx_cover("bulk work checked");
}

// cost per element of the linear operations at two sizes: it must not grow with the size
static NOINLINE u64 linear_cost(u64 kind, u64 n) {
  S s, o; S const& c = s;
  for (u64 i = 0; i < n; ++i) { s.push_back(mk(i)); o.push_back(mk(i)); }
  T const v = mk(3); bool r = true;
  switch (kind) {
    case 0: w_begin(); r = c == o; break;
    case 1: w_begin(); r = !(c != o); break;
    case 2: w_begin(); r = !(c < o) && !(c > o); break;
    case 3: w_begin(); r = c <= o && c >= o; break;
    case 4: w_begin(); s.reverse(); break;
    case 5: w_begin(); s = o; break;
    case 6: w_begin(); s.assign((S::size_type)n, v); break;
    case 7: w_begin(); s.assign(o.cbegin(), o.cend()); break;
    case 8: w_begin(); s.remove_if(Never()); break;
    case 9: w_begin(); s.unique(); break;
    case 10: w_begin(); { u64 x = 0; for (CIt i = c.cbegin(), e = c.cend(); i != e; ++i) x += val_of(*i); sx_trace(x); } break;
    case 11: w_begin(); { u64 x = 0; for (S::const_reverse_iterator i = c.rbegin(), e = c.rend(); i != e; ++i) x += val_of(*i); sx_trace(x); } break;
    default: w_begin(); s.clear(); break;
  }
  u64 w = sx_work() - w_start;
  CHECK(r && s.size() == (kind == 12 ? 0 : n), "result");
  return w;
}
RUN(h_growth) {
  u64 n1 = sx_param("n1", 128), n2 = sx_param("n2", 1024), kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 12)));
  u64 w1 = linear_cost(kind, n1), w2 = linear_cost(kind, n2);
  sx_trace(kind);
#ifdef SHOW
  sx_trace(w1); sx_trace(w2);
#endif
  CHECK(2 * w2 * n1 <= 3 * w1 * n2 + 20000, "the cost per element of a linear operation grows with the size");
  sx_cover("growth checked");
}
