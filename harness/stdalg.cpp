// S31: standard algorithms over the sequence's iterators give what they give over an array.
#include "common.h"
#include <algorithm>
#include <numeric>
static NOINLINE void pre(S& s, Model& m) {
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 8)));
  build(s, m, n, shape);
}
struct Arr {  // the same elements in an array
  T* p; u64 n;
  Arr(Model const& m) : p(static_cast<T*>(::operator new((MAXN + 1) * sizeof(T)))), n(m.n) { for (u64 i = 0; i < n; ++i) ::new ((void*)(p + i)) T(mk(m.a[i])); }
  ~Arr() { for (u64 i = 0; i < n; ++i) (p + i)->~T(); ::operator delete(p); }
  T* begin() { return p; } T* end() { return p + n; }
};
struct Bit { bool operator()(T const& x) const { return (val_of(x) & 1) != 0; } };
struct Less { bool operator()(T const& a, T const& b) const { return val_of(a) < val_of(b); } };
struct SameLow { bool operator()(T const& a, T const& b) const { return ((val_of(a) ^ val_of(b)) & 3) == 0; } };
// a known order with two arbitrary elements among it
static NOINLINE void patterned(S& s, Model& m) {
  u64 n = sx_split(sx_range("n", sx_param("pmin", 0), sx_param("pn", 10))), pat = sx_split(sx_range("pattern", 0, 3)), p = n / 3, q = n ? n - 1 - n / 4 : 0;
  u64 v[MAXN];
  for (u64 i = 0; i < n; ++i) v[i] = i == p || i == q ? sx_val("v") : pat == 0 ? 100 : pat == 1 ? 100 + 2 * i : pat == 2 ? 200 - i : 100 + (i * 7) % 5;
  for (u64 i = 0; i < n; i += 2) s.push_back(mk(v[i]));
  for (u64 i = 1; i < n; i += 2) s.insert(s.nth(i), mk(v[i]));
  for (u64 i = 0; i < n; ++i) m.push(v[i]);
}
static NOINLINE void agree(S const& s, Arr& a, const char* w) {
  CHECK(s.size() == a.n, w); u64 k = 0;
  for (CIt i = s.begin(), e = s.end(); i != e; ++i, ++k) CHECK(val_of(*i) == val_of(a.p[k]), w);
  CHECK(k == a.n, w);
}
// positions only: no outcome of an algorithm depends on a value
RUN(h_place) {
  S s; Model m; pre(s, m); S const& c = s; Arr a(m);
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 11)));
  u64 p = sx_split(sx_range("p", 0, m.n)), q = sx_split(sx_range("q", p, m.n));
  const char* w = "a standard algorithm moves the elements to other places than in an array";
  typedef S::difference_type D;
  It f = s.begin(), l = s.end(), i = s.nth(p), j = s.nth(q);
  switch (kind) {
    case 0: { It r = std::rotate(i, j, l); u64 x = p, y = q; T* t = std::rotate(a.p + x, a.p + y, a.p + m.n); CHECK(r - f == (D)(t - a.p), w); break; }
    case 1: { It r = std::rotate(f, i, j); u64 x = p, y = q; T* t = std::rotate(a.p, a.p + x, a.p + y); CHECK(r - f == (D)(t - a.p), w); break; }
    case 2: { std::reverse(i, j); u64 x = p, y = q; std::reverse(a.p + x, a.p + y); break; }
    case 3: { It r = std::copy(j, l, i); u64 x = p, y = q; std::copy(a.p + y, a.p + m.n, a.p + x); CHECK(s.index_of(r) == x + m.n - y, w); break; }
    case 4: { It r = std::copy_backward(f, i, j); u64 x = p, y = q; std::copy_backward(a.p, a.p + x, a.p + y); CHECK(s.index_of(r) == y - x, w); break; }
    case 5: { u64 x = p, y = q; sx_assume(y - x >= x); It r = std::swap_ranges(f, i, j - (D)x); std::swap_ranges(a.p, a.p + x, a.p + y - x); CHECK(r == j, w); break; }
    case 6: { u64 x = p, y = q; T v = mk(sx_val("x")); std::fill(i, j, v); std::fill(a.p + x, a.p + y, v); break; }
    case 7: { std::reverse_iterator<It> r(j), e(i); std::reverse(r, e); u64 x = p, y = q; std::reverse(a.p + x, a.p + y); break; }
    case 8: { S t; std::copy(c.nth(p), c.nth(q), std::back_inserter(t)); u64 x = p, y = q; CHECK(t.size() == y - x, w); for (u64 k = x; k < y; ++k) CHECK(val_of(t[k - x]) == m.a[k], w); break; }
    case 9: { S t; std::copy(c.nth(p), c.nth(q), std::front_inserter(t)); u64 x = p, y = q; CHECK(t.size() == y - x, w); for (u64 k = x; k < y; ++k) CHECK(val_of(t[y - 1 - k]) == m.a[k], w); break; }
    case 10: { S t; t.push_back(mk(1)); t.push_back(mk(2)); std::copy(c.nth(p), c.nth(q), std::inserter(t, std::next(t.begin()))); u64 x = p, y = q; CHECK(t.size() == y - x + 2 && val_of(t.front()) == 1 && val_of(t.back()) == 2, w); for (u64 k = x; k < y; ++k) CHECK(val_of(t[k - x + 1]) == m.a[k], w); break; }
    default: {
      It n = i; std::advance(n, (D)(q - p)); CHECK(n == j && std::distance(i, j) == (D)(q - p) && std::next(i, (D)(q - p)) == j && std::prev(j, (D)(q - p)) == i && std::distance(c.begin(), c.nth(q)) == (D)q, "advance, distance, next or prev");
      u64 x = p, y = q; if (m.n) { std::iter_swap(x < m.n ? i : f, y < m.n ? j : f); std::iter_swap(x < m.n ? a.p + x : a.p, y < m.n ? a.p + y : a.p); }
      using std::swap; swap(i, j); CHECK(s.index_of(i) == y && s.index_of(j) == x, "swapped iterators"); break; }
  }
  agree(s, a, w);
  sx_trace(s.size()); sx_cover("placement checked");
}
// algorithms that look at the elements
RUN(h_value) {
  S s; Model m; patterned(s, m); S const& c = s; Arr a(m);
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 17)));
  const char* w = "a standard algorithm gives another result than over an array";
  typedef S::difference_type D;
  It f = s.begin(), l = s.end(); T *af = a.begin(), *al = a.end();
  u64 h = m.n / 2; T key = mk(104);
  switch (kind) {
    case 0: std::sort(f, l, Less()); std::sort(af, al, Less()); break;
    case 1: std::stable_sort(f, l, Less()); std::stable_sort(af, al, Less()); break;
    case 2: std::partial_sort(f, f + (D)h, l, Less()); std::partial_sort(af, af + h, al, Less()); break;
    case 3: std::nth_element(f, f + (D)h, l, Less()); std::nth_element(af, af + h, al, Less()); break;
    case 4: std::make_heap(f, l, Less()); std::make_heap(af, al, Less()); agree(s, a, w); std::sort_heap(f, l, Less()); std::sort_heap(af, al, Less()); break;
    case 5: { It r = std::partition(f, l, Bit()); T* t = std::partition(af, al, Bit()); CHECK(r - f == (D)(t - af), w); break; }
    case 6: { It r = std::stable_partition(f, l, Bit()); T* t = std::stable_partition(af, al, Bit()); CHECK(r - f == (D)(t - af), w); break; }
    case 7: { std::sort(f, f + (D)h, Less()); std::sort(f + (D)h, l, Less()); std::inplace_merge(f, f + (D)h, l, Less()); std::sort(af, af + h, Less()); std::sort(af + h, al, Less()); std::inplace_merge(af, af + h, al, Less()); break; }
    case 8: { std::sort(f, l, Less()); std::sort(af, al, Less()); CHECK(std::lower_bound(c.begin(), c.end(), key, Less()) - c.begin() == (D)(std::lower_bound(af, al, key, Less()) - af), w); CHECK(std::upper_bound(f, l, key, Less()) - f == (D)(std::upper_bound(af, al, key, Less()) - af), w); CHECK(std::binary_search(f, l, key, Less()) == std::binary_search(af, al, key, Less()), w); break; }
    case 9: { CHECK(std::find_if(c.begin(), c.end(), Bit()) - c.begin() == (D)(std::find_if(af, al, Bit()) - af), w); CHECK(std::count_if(c.rbegin(), c.rend(), Bit()) == std::count_if(af, al, Bit()), w); break; }
    case 10: { CHECK(std::min_element(f, l, Less()) - f == (D)(std::min_element(af, al, Less()) - af), w); CHECK(std::max_element(f, l, Less()) - f == (D)(std::max_element(af, al, Less()) - af), w); break; }
    case 11: { It r = std::unique(f, l, SameLow()); T* t = std::unique(af, al, SameLow()); u64 k = (u64)(t - af); CHECK(r - f == (D)k, w); s.erase(r, l); for (u64 i = k; i < a.n; ++i) (a.p + i)->~T(); a.n = k; break; }
    case 12: { It r = std::remove_if(f, l, Bit()); T* t = std::remove_if(af, al, Bit()); u64 k = (u64)(t - af); CHECK(r - f == (D)k, w); s.erase(r, l); for (u64 i = k; i < a.n; ++i) (a.p + i)->~T(); a.n = k; break; }
    case 13: { bool x = std::next_permutation(f, l, Less()), y = std::next_permutation(af, al, Less()); CHECK(x == y, w); break; }
    case 14: { CHECK(std::is_sorted(c.begin(), c.end(), Less()) == std::is_sorted(af, al, Less()), w); CHECK(std::is_sorted_until(f, l, Less()) - f == (D)(std::is_sorted_until(af, al, Less()) - af), w); CHECK(std::adjacent_find(f, l, SameLow()) - f == (D)(std::adjacent_find(af, al, SameLow()) - af), w); break; }
    case 15: { CHECK(std::search(c.begin(), c.end(), c.begin() + (D)h, c.end(), SameLow()) - c.begin() == (D)(std::search(af, al, af + h, al, SameLow()) - af), w); CHECK(std::equal(c.begin(), c.end(), af, SameLow()), w); CHECK(std::lexicographical_compare(c.begin(), c.begin() + (D)h, c.begin() + (D)h, c.end(), Less()) == std::lexicographical_compare(af, af + h, af + h, al, Less()), w); break; }
    case 16: { Model out; S t; std::sort(f, f + (D)h, Less()); std::sort(f + (D)h, l, Less()); std::merge(f, f + (D)h, f + (D)h, l, std::back_inserter(t), Less()); std::sort(af, af + h, Less()); std::sort(af + h, al, Less()); agree(s, a, w); std::inplace_merge(af, af + h, al, Less()); agree(t, a, w); sx_trace(a.n); sx_cover("algorithm checked"); return; }
    default: { u64 x = 0, y = 0; for (auto const& e : c) x = x * 3 + val_of(e); for (auto& e : s) e = mk(val_of(e) + 1); for (u64 k = 0; k < m.n; ++k) { y = y * 3 + m.a[k]; a.p[k] = mk(m.a[k] + 1); } CHECK(x == y, "a range-based loop visits something else than the elements in order"); break; }
  }
  agree(s, a, w);
  sx_trace(s.size()); sx_cover("algorithm checked");
}
