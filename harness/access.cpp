// S04, S05, S06: lookups, iterator arithmetic, segment-wise traversal.
#include "common.h"
static const void* addr[MAXN];
static NOINLINE void pre(S& s, Model& m) {
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 12)));
  build(s, m, n, shape);
}
// the element objects in order, by stepping; values pin them to the model
static NOINLINE void table(S& s, Model const& m) {
  u64 k = 0;
  for (It i = s.begin(); i != s.end(); ++i) { CHECK(k < m.n, "stepping from the front passes more elements than the size"); CHECK(val_of(*i) == m.a[k], "stepping from the front meets another element"); addr[k++] = std::addressof(*i); }
  CHECK(k == m.n, "stepping from the front passes fewer elements than the size");
}

RUN(h_access) {
  S s; Model m; pre(s, m); S const& c = s; table(s, m);
  // from the back
  { u64 k = m.n; It i = s.end(); while (i != s.begin()) { CHECK(k > 0, "stepping from the back passes too many elements"); --i; --k; CHECK(std::addressof(*i) == addr[k] && s.index_of(i) == k, "stepping from the back meets another element"); } CHECK(k == 0, "stepping from the back passes too few elements"); }
  if (m.n) {
    CHECK(std::addressof(s.front()) == addr[0] && std::addressof(c.front()) == addr[0] && std::addressof(s.back()) == addr[m.n - 1] && std::addressof(c.back()) == addr[m.n - 1], "front or back");
    CHECK(s.penultimate().current() == addr[m.n - 1] && c.penultimate().current() == addr[m.n - 1] && s.cpenultimate().current() == addr[m.n - 1], "penultimate");
    CHECK(s.index_of(s.penultimate()) == m.n - 1 && c.index_of(c.penultimate()) == m.n - 1 && s.index_of(s.cpenultimate()) == m.n - 1, "index of penultimate");
    CHECK(s.begin().current() == addr[0] && c.begin().current() == addr[0] && s.cbegin().current() == addr[0], "begin");
  }
  CHECK(s.index_of(s.begin()) == 0 && c.index_of(c.begin()) == 0 && s.index_of(s.cbegin()) == 0, "index of begin");
  CHECK(s.index_of(s.end()) == m.n && c.index_of(c.end()) == m.n && s.index_of(s.cend()) == m.n, "index of end");
  u64 i = sx_sym("i", (int)(8 * sizeof(S::size_type)));
  bool threw = false; const void* a1 = 0; const void* a2 = 0;
  try { a1 = std::addressof(s.at(i)); } catch (std::out_of_range const&) { threw = true; }
  CHECK(threw == (i >= m.n), "at() throws on the wrong indices");
  threw = false;
  try { a2 = std::addressof(c.at(i)); } catch (std::out_of_range const&) { threw = true; }
  CHECK(threw == (i >= m.n), "at() const throws on the wrong indices");
  It n1 = s.nth(i); CIt n2 = c.nth(i);
  if (i >= m.n) {
    CHECK(n1 == s.end() && n2 == c.end() && s.index_of(n1) == m.n && c.index_of(n2) == m.n, "nth past the end is not the end iterator");
    if (m.n) { --n1; --n2; CHECK(n1.current() == addr[m.n - 1] && n2.current() == addr[m.n - 1], "stepping back from nth past the end"); }
    sx_cover("past the end"); return;
  }
  CHECK(s.index_of(n1) == i && c.index_of(n2) == i, "index_of of nth(i)");
  const void* x1 = std::addressof(s[i]); const void* x2 = std::addressof(c[i]); const void* x3 = std::addressof(*(s.begin() + (S::difference_type)i)); const void* x4 = std::addressof(s.begin()[(S::difference_type)i]);
  const void* x5 = std::addressof(*(s.end() - (S::difference_type)(m.n - i))); const void* x6 = std::addressof(s.cbegin()[(S::difference_type)i]);
  i = sx_split(i);
  const void* e = addr[i];
  CHECK(a1 == e && a2 == e, "at(i) refers to another element");
  CHECK(n1.current() == e && n2.current() == e && std::addressof(*n1) == e && std::addressof(*n2) == e && n1.operator->() == e, "nth(i) refers to another element");
  CHECK(x1 == e && x2 == e, "operator[] refers to another element");
  CHECK(x3 == e && x4 == e && x5 == e && x6 == e, "begin advanced by i, or end moved back, refers to another element");
  sx_trace(i); sx_cover("access checked");
}

// ---------------------------------------------------------------- S05
template <class I> static NOINLINE void reach(I r, I target, u64 b, u64 n, const void* want, const char* w) {
  CHECK(r == target && !(r != target), w);
  CHECK(r - target == 0, w);
  if (b < n) CHECK(static_cast<const void*>(std::addressof(*r)) == want, w);
}
template <class I> static NOINLINE void compare(I x, I y, u64 a, u64 b) {
  CHECK((x == y) == (a == b) && (x != y) == (a != b), "iterator equality disagrees with the positions");
  CHECK((x < y) == (a < b) && (x > y) == (a > b), "iterator order disagrees with the positions");
  CHECK((x <= y) == (a <= b) && (x >= y) == (a >= b), "iterator order disagrees with the positions");
  CHECK(y - x == (S::difference_type)(b - a), "iterator distance disagrees with the positions");
}
template <class I> static NOINLINE void moves(I first, I last, u64 a, u64 b, u64 n, u64 kind, bool rev) {
  typedef typename std::iterator_traits<I>::difference_type D;
  I x = sx_bool("from_end") ? last - (D)(n - a) : first + (D)a;
  I y = first + (D)b;
  compare(x, y, a, b);
  D d = (D)(b - a);
  I r = x;
  switch (kind) {
    case 0: r += d; break;
    case 1: r -= -d; break;
    case 2: r = x + d; break;
    case 3: r = x - -d; break;
    case 4: r = d + x; break;
    case 5: a = sx_split(a); b = sx_split(b); while (a < b) { if (a & 1) ++r; else r++; ++a; } while (a > b) { if (a & 1) --r; else r--; --a; } break;
    case 6: { // post-increment and -decrement return the old position
      if (a < n) { I o = r++; CHECK(o == x && r - x == 1, "post-increment"); r--; }
      if (a > 0) { I o = r--; CHECK(o == x && x - r == 1, "post-decrement"); r++; }
      CHECK(r == x, "post-increment and post-decrement do not cancel");
      b = a; y = x; break; }
    default: // there and back
      r += d; r += -d; CHECK(r == x, "moving there and back does not return"); r = x; r += d; break;
  }
  const void* sub = 0;
  if (b < n && kind != 6) sub = std::addressof(x[d]);
  b = sx_split(b);
  const void* want = b < n ? addr[rev ? n - 1 - b : b] : 0;
  reach(r, y, b, n, want, "iterator moved by b-a does not reach b");
  if (sub) CHECK(sub == want, "subscript of an iterator refers to another element");
}
template <class I> static NOINLINE void value_initialised() {
  static_assert(std::is_same<typename std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag>::value, "category");
  alignas(I) unsigned char p[sizeof(I)], q[sizeof(I)];
  for (u64 i = 0; i < sizeof(I); ++i) { p[i] = (unsigned char)sx_sym("raw", 8); q[i] = (unsigned char)sx_sym("raw", 8); }
  I* x = ::new ((void*)p) I(); I* y = ::new ((void*)q) I();
  CHECK(*x == *y && !(*x != *y) && !(*x < *y) && !(*y < *x) && *x - *y == 0, "value-initialised iterators are not equal");
  I z{}; CHECK(z == *x, "value-initialised iterators are not equal");
}
RUN(h_arith) {
  S s; Model m; pre(s, m); S const& c = s; table(s, m);
  u64 a = sx_range("a", 0, m.n), b = sx_range("b", 0, m.n), kind = sx_split(sx_range("kind", 0, 7));
  switch (sx_split(sx_range("flavour", 0, 3))) {
    case 0: moves(s.begin(), s.end(), a, b, m.n, kind, false); break;
    case 1: if (sx_bool("c")) moves(s.cbegin(), s.cend(), a, b, m.n, kind, false); else moves(c.begin(), c.end(), a, b, m.n, kind, false); break;
    case 2: moves(s.rbegin(), s.rend(), a, b, m.n, kind, true); break;
    default: if (sx_bool("c")) moves(s.crbegin(), s.crend(), a, b, m.n, kind, true); else moves(c.rbegin(), c.rend(), a, b, m.n, kind, true); break;
  }
  { CIt x = s.nth(a); It y = s.nth(b); CHECK((x == y) == (a == b) && (x < y) == (a < b) && x - y == (S::difference_type)(a - b), "mixed const and non-const iterators");
    It i = y; i = s.nth(a); x = i; CHECK(x == i && s.index_of(x) == a && s.index_of(y) == b, "assigning an iterator"); It j = i; if (a < m.n) { ++i; CHECK(s.index_of(j) == a && s.index_of(i) == a + 1 && s.index_of(x) == a, "a copy of an iterator moves with it"); } }
  if (m.n == 1 && kind == 0) { value_initialised<It>(); value_initialised<CIt>(); value_initialised<S::reverse_iterator>(); value_initialised<S::const_reverse_iterator>(); sx_cover("value-initialised iterators"); }
  sx_trace(m.n); sx_cover("arithmetic checked");
}

// ---------------------------------------------------------------- S06
static NOINLINE void block(S& s, u64 i, u64 n) {  // i < n
  It it = s.nth(i);
  u64 len = (u64)(it.end() - it.begin()), off = (u64)(it.current() - it.begin());
  CHECK(off < len, "the exposed block does not contain the current element");
  CHECK(off <= i && i - off + len <= n, "the exposed block is larger than the sequence");
  for (u64 k = 0; k < len; ++k) CHECK(it.begin() + k == addr[i - off + k], "the exposed block is not a run of consecutive elements");
  CIt ci = it; CHECK(ci.begin() == it.begin() && ci.end() == it.end() && ci.current() == it.current(), "const iterators expose another block");
}
RUN(h_blocks) {
  S s; Model m; pre(s, m); table(s, m);
  if (m.n == 0) { CHECK(s.begin().begin() == s.begin().end(), "an empty sequence exposes a block"); sx_cover("empty"); return; }
  // forward and backward partition
  u64 k = 0; It i = s.begin();
  while (i != s.end()) {
    CHECK(s.index_of(i) == k && i.current() == i.begin() && k < m.n, "segment-wise traversal does not start a block at its first element");
    u64 len = (u64)(i.end() - i.begin()); CHECK(len > 0, "segment-wise traversal meets an empty block");
    CHECK(k + len <= m.n, "segment-wise traversal covers more than the sequence");
    for (u64 j = 0; j < len; ++j) CHECK(i.begin() + j == addr[k + j], "segment-wise traversal covers another element");
    k += len;
    It c = i.after_segment(); i.move_after_segment(); CHECK(c == i, "after_segment and move_after_segment differ");
  }
  CHECK(k == m.n, "segment-wise traversal does not cover the sequence");
  CHECK(i.current() == s.end().current() && i.current() == i.end(), "segment-wise traversal ends at another place than end()");
  k = m.n; i = s.penultimate();
  while (true) {
    CHECK(s.index_of(i) == k - 1 && i.current() + 1 == i.end(), "backward segment-wise traversal does not start a block at its last element");
    u64 len = (u64)(i.end() - i.begin()); CHECK(len > 0 && len <= k, "backward segment-wise traversal covers more than the sequence");
    for (u64 j = 0; j < len; ++j) CHECK(i.begin() + j == addr[k - len + j], "backward segment-wise traversal covers another element");
    k -= len;
    if (k == 0) break;
    It c = i.before_segment(); i.move_before_segment(); CHECK(c == i, "before_segment and move_before_segment differ");
  }
  u64 p = sx_split(sx_range("i", 0, m.n - 1));
  block(s, p, m.n);
  { It e = s.end(); --e; CHECK(e.current() == addr[m.n - 1], "stepping back from end"); It f = s.end(); CHECK(f.begin() == e.begin() && f.end() == e.end() && f.current() == f.end(), "the end iterator exposes another block than the last element's"); }
  sx_trace(m.n); sx_cover("blocks checked");
}
RUN(h_jump) {
  S s; Model m; pre(s, m); table(s, m); sx_assume(m.n > 0);
  u64 p = sx_range("i", 0, m.n - 1), k = sx_range("n", 0, m.n);
  It it = s.nth(p); CIt ci = it;
  u64 off = (u64)(it.current() - it.begin()), len = (u64)(it.end() - it.begin());
  if (sx_bool("forward")) {
    u64 t = p - off + len + k;
    sx_assume(t <= m.n);
    It r = it.after_segment((S::size_type)k), r2 = it; CIt r3 = ci.after_segment((S::size_type)k);
    CHECK(&r2.move_after_segment((S::size_type)k) == &r2, "move_after_segment does not return the iterator");
    if (k == 0) CHECK(it.after_segment() == r, "after_segment() and after_segment(0) differ");
    CHECK(s.index_of(r) == t && s.index_of(r2) == t && s.index_of(r3) == t, "moving after the block by n: wrong index");
    t = sx_split(t);
    if (t < m.n) { CHECK(r.current() == addr[t] && r2.current() == addr[t] && r3.current() == addr[t], "moving after the block by n: wrong element"); CHECK(r.begin() == s.nth(t).begin() && r.end() == s.nth(t).end(), "moving after the block by n: wrong block"); }
    else { CHECK(r == s.end() && r.current() == s.end().current(), "moving after the block by n: not the end"); --r; CHECK(r.current() == addr[m.n - 1], "stepping back from the end reached by a segment move"); }
    sx_cover("after checked");
  } else {
    sx_assume(p >= off + 1 + k);
    u64 t = p - off - 1 - k;
    It r = it.before_segment((S::size_type)k), r2 = it; CIt r3 = ci.before_segment((S::size_type)k);
    CHECK(&r2.move_before_segment((S::size_type)k) == &r2, "move_before_segment does not return the iterator");
    if (k == 0) CHECK(it.before_segment() == r && it.before_segment().current() == r.current(), "before_segment() and before_segment(0) differ");
    CHECK(s.index_of(r) == t && s.index_of(r2) == t && s.index_of(r3) == t, "moving before the block by n: wrong index");
    t = sx_split(t);
    CHECK(r.current() == addr[t] && r2.current() == addr[t] && r3.current() == addr[t], "moving before the block by n: wrong element");
    CHECK(r.begin() == s.nth(t).begin() && r.end() == s.nth(t).end(), "moving before the block by n: wrong block");
    sx_cover("before checked");
  }
  sx_trace(m.n);
}

// ---------------------------------------------------------------- S21: work = basic blocks and functions entered
// A large tree; the bound is a generous multiple of height x node capacity + segment capacity.
static u64 w_start;
static NOINLINE void w_begin() { w_start = sx_work(); }
static NOINLINE void w_end(u64 limit, const char* what) {
  u64 w = sx_work() - w_start;
  CHECK(w <= limit, what);
}
RUN(h_work) {
  S s; S const& c = s;
  u64 n = sx_param("n", 600), shape = sx_split(sx_range("shape", 0, sx_param("shape_hi", 2)));
  for (u64 i = 0; i < n; ++i) s.insert(s.nth(shape == 0 ? i : shape == 1 ? 0 : (i * 7 + 3) % (i + 1)), mk(i));
  u64 h = s.height(), K = sx_param("factor", 30), lookup = K * (h + 1) * BASEMAX + 10 * K, edit = 3 * lookup + 10 * K * SEGMAX, linear = sx_param("per_element", 200) * n + lookup;
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 13)));
  u64 p = sx_range("p", 0, n - 1), a = 0;
  if (kind >= 1 && kind <= 4) { u64 w = sx_split(sx_range("from", 0, 3)); a = w == 0 ? 0 : w == 1 ? n : w == 2 ? n / 2 : n / 3; }
  switch (kind) {
    case 0: { w_begin(); c.nth(p); w_end(lookup, "nth costs more than logarithmic work"); w_begin(); c[p]; w_end(lookup, "indexing costs more than logarithmic work"); w_begin(); c.at(p); w_end(lookup, "checked access costs more than logarithmic work"); break; }
    case 1: { It i = s.nth(a), j = s.nth(p); w_begin(); i += (S::difference_type)p - (S::difference_type)a; w_end(lookup, "a jump costs more than logarithmic work"); CHECK(i == j, "jump"); break; }
    case 2: { It i = s.nth(a), j = s.nth(p); w_begin(); S::difference_type d = j - i; w_end(lookup, "a distance costs more than logarithmic work"); CHECK(d == (S::difference_type)p - (S::difference_type)a, "distance"); break; }
    case 3: { It i = s.nth(a), j = s.nth(p); w_begin(); bool l = i < j, e = i == j, g = i >= j; w_end(3 * lookup, "a comparison costs more than logarithmic work"); CHECK((l == (a < p)) & (e == (a == p)) & (g == (a >= p)), "comparison"); break; }
    case 4: { CIt i = c.nth(p); w_begin(); u64 x = c.index_of(i); w_end(lookup, "index_of costs more than logarithmic work"); CHECK(x == p, "index"); break; }
    case 5: { It i = s.nth(p); w_begin(); ++i; w_end(lookup, "a step forward costs more than logarithmic work"); w_begin(); --i; w_end(lookup, "a step back costs more than logarithmic work"); break; }
    case 6: { It i = s.nth(p); w_begin(); s.insert(i, mk(1)); w_end(edit, "an insertion costs more than logarithmic work"); break; }
    case 7: { It i = s.nth(p); w_begin(); s.erase(i); w_end(edit, "an erasure costs more than logarithmic work"); break; }
    case 8: { sx_assume(p < 2); w_begin(); s.push_back(mk(1)); w_end(edit, "push_back costs more than logarithmic work"); w_begin(); s.push_front(mk(1)); w_end(edit, "push_front costs more than logarithmic work");
              w_begin(); s.pop_back(); w_end(edit, "pop_back costs more than logarithmic work"); w_begin(); s.pop_front(); w_end(edit, "pop_front costs more than logarithmic work"); break; }
    case 9: { sx_assume(p < 2); w_begin(); c.begin(); c.end(); c.front(); c.back(); c.penultimate(); c.rbegin(); c.rend(); w_end(7 * lookup, "reaching the ends costs more than logarithmic work");
              w_begin(); c.size(); c.empty(); c.height(); c.max_size(); w_end(lookup, "a size query costs more than constant work"); break; }
    case 10: { It i = s.nth(p); w_begin(); i.begin(); i.end(); i.current(); *i; w_end(lookup, "block access costs more than constant work"); w_begin(); i.move_after_segment(); w_end(lookup, "moving after a block costs more than logarithmic work");
               if (s.index_of(i) > 1) { i -= 1; w_begin(); if (s.index_of(i) > (u64)(i.current() - i.begin())) i.move_before_segment(); w_end(2 * lookup, "moving before a block costs more than logarithmic work"); } break; }
    case 11: { sx_assume(p < 2); u64 k = 0; w_begin(); for (It i = s.begin(), e = s.end(); i != e; ++i) ++k; w_end(linear, "a traversal costs more than linear work"); CHECK(k == n, "traversal");
               w_begin(); for (It i = s.end(), e = s.begin(); i != e; --i) --k; w_end(linear, "a backward traversal costs more than linear work"); CHECK(k == 0, "traversal");
               w_begin(); for (CIt i = c.begin(), e = c.end(); i != e; i.move_after_segment()) ++k; w_end(linear, "a block traversal costs more than linear work"); break; }
    case 12: { sx_assume(p < 2); w_begin(); S t(std::move(s)); w_end(lookup, "a move costs more than constant work"); w_begin(); s.swap(t); w_end(lookup, "a swap costs more than constant work"); w_begin(); t = std::move(s); w_end(lookup, "a move assignment costs more than constant work"); CHECK(t.size() == n && s.empty(), "move"); break; }
    default: { sx_assume(p < 2); w_begin(); s.clear(); w_end(linear, "clear costs more than linear work"); CHECK(s.empty(), "clear"); break; }
  }
  sx_trace(n); sx_cover("work checked");
}
