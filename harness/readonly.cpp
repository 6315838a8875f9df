// S24: observers never write to the sequence or its memory.  The sequence object lives on the heap; while the
// observers run every store to an existing heap block is a violation.
#include "common.h"
static bool g_warm;
static NOINLINE u64 pick(const char* name, u64 lo, u64 hi) { return g_warm ? hi : sx_range(name, lo, hi); }
static NOINLINE void observe(S const& c, u64 n, u64 what) {
  typedef S::difference_type D;
  switch (what) {
    case 0: CHECK(c.size() == n, "size"); CHECK(c.empty() == (n == 0), "empty"); sx_trace(c.height()); c.max_size(); c.get_allocator(); c.get_stored_allocator(); if (n) { val_of(c.front()); val_of(c.back()); } break;
    case 1: if (n) { u64 i = pick("i", 0, n - 1); val_of(c[i]); val_of(c.at(i)); val_of(*c.nth(i)); val_of(*c.penultimate()); CHECK(c.index_of(c.nth(i)) == i, "index"); } break;
    case 2: { u64 k = 0; for (CIt i = c.begin(); i != c.end(); ++i) { val_of(*i); ++k; } for (CIt i = c.cend(); i != c.cbegin(); i--) --k; CHECK(k == 0, "traversal"); for (S::const_reverse_iterator i = c.rbegin(); i != c.crend(); i++) ++k; CHECK(k == n, "traversal"); break; }
    case 3: { u64 a = pick("a", 0, n), b = pick("b", 0, n); CIt i = c.begin() + (D)a, j = c.end() - (D)(n - b); D d = j - i; CHECK(d == (D)b - (D)a, "distance"); CIt k = i; k += d; CHECK((k == j) & !(k != j) & !(k < j) & (k <= j), "arithmetic"); k -= d; CHECK(k == i, "arithmetic"); if (n && b < n) val_of(i[d]); break; }
    case 4: { u64 k = 0; for (CIt i = c.begin(); i != c.end(); i.move_after_segment()) k += (u64)(i.end() - i.begin()); CHECK(k == n, "segments"); for (CIt i = c.begin(); i != c.end(); i = i.after_segment()) k -= (u64)(i.end() - i.begin()); CHECK(k == 0, "segments");
              if (n) { CIt i = c.penultimate(); for (;;) { u64 at = c.index_of(i), first = at - (u64)(i.current() - i.begin()); if (first == 0) break; i.move_before_segment(); } } break; }
    case 5: { S t(c); CHECK(t.size() == n, "copy"); t.clear(); break; }
    case 6: { S t; t.push_back(mk(1)); t = c; CHECK(t.size() == n, "copy"); if (n) t.erase(t.begin()); break; }
    case 7: { S t(c); CHECK((c == t) & !(c != t) & !(c < t) & (c <= t) & (c >= t) & !(c > t), "comparison"); break; }
    case 8: { S t(c.begin(), c.end()); t.insert(t.nth(n / 2), c.begin(), c.end()); CHECK(t.size() == 2 * n, "range"); break; }
    default: { CIt i = c.nth(pick("q", 0, n)); CIt j = i; j = i; std::swap(i, j); CHECK(i == j, "iterator copies"); if (i != c.end()) { val_of(*i); val_of(*i.current()); i.begin(); i.end(); } break; }
  }
}
RUN(h_readonly) {
  { S w; g_warm = true; w.push_back(mk(1)); for (u64 k = 0; k < 10; ++k) observe(w, 1, k); g_warm = false; }  // function-local statics are initialised by now
  S* s = new S; Model m;
  u64 shape = sx_split(sx_range("shape", 0, SHAPES - 1)), n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 8)));
  build(*s, m, n, shape);
  u64 what = sx_split(sx_range("what", 0, 9)), what2 = sx_split(sx_range("what2", 0, sx_param("second", 0)));
  sx_readonly(true);
  observe(*s, n, what);
  if (what2) observe(*s, n, what2);  // a second observer sees the same
  // creating iterators from a non-const sequence is an observation too
  { S& r = *s; It i = r.begin(), e = r.end(); u64 k = 0; for (; i != e; ++i) ++k; CHECK(k == n, "traversal"); if (n) { r.nth(n / 2); r.front(); r.back(); r.penultimate(); r[n - 1]; } }
  sx_readonly(false);
  same(*s, m, "an observer changed the sequence");
  delete s;
  sx_trace(n); sx_cover("observers checked");
}
