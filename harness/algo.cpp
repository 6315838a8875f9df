// S17..S20: sort, merge, splice, remove, unique, reverse, aliasing.
#include "common.h"
static NOINLINE void pre(S& s, Model& m) {
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 6)));
  build(s, m, n, shape);
}
// elements carry a key (the part compared) and a tag (their identity)
static u64 key(u64 v) { return v >> 8; }
static u64 tag(u64 v) { return v & 255; }
struct ByKey { bool operator()(T const& a, T const& b) const { return key(val_of(a)) < key(val_of(b)); } };
struct ByKeyDown { bool operator()(T const& a, T const& b) const { return key(val_of(a)) > key(val_of(b)); } };
struct SameKey { bool operator()(T const& a, T const& b) const { return key(val_of(a)) == key(val_of(b)); } };
static NOINLINE u64 keyed(u64 t, u64 bits) { return (sx_sym("key", (int)bits) << 8) | t; }
static NOINLINE void place(S& s, u64 n, u64 t0, u64 bits, u64 shape) {  // tags are positions
  u64 v[MAXN]; for (u64 i = 0; i < n; ++i) v[i] = keyed(t0 + i, bits);
  if (shape == 0) for (u64 i = 0; i < n; ++i) s.push_back(mk(v[i]));
  else if (shape == 1) for (u64 i = n; i-- > 0;) s.push_front(mk(v[i]));
  else { for (u64 i = 0; i < n; i += 2) s.push_back(mk(v[i])); for (u64 i = 1; i < n; i += 2) s.insert(s.nth(i), mk(v[i])); }
}
static NOINLINE void ordered(S& s, u64 n, bool down) {
  u64 seen[MAXN]; for (u64 i = 0; i < n; ++i) seen[i] = 0;
  CHECK(s.size() == n, "sorting or merging changes the number of elements");
  u64 k = 0, pk = 0, pt = 0;
  for (It i = s.begin(); i != s.end(); ++i, ++k) {
    u64 kv = key(val_of(*i)), t = tag(val_of(*i));
    CHECK(t < n, "sorting or merging invents an element"); CHECK(seen[t] == 0, "sorting or merging duplicates an element"); seen[t] = 1;
    if (k) { CHECK(down ? pk >= kv : pk <= kv, "the result is not ordered by the comparator"); CHECK((pk != kv) | (pt < t), "equivalent elements change their relative order"); }
    pk = kv; pt = t;
  }
  CHECK(k == n, "sorting or merging loses elements");
}
static NOINLINE void use_up_now(S& s, const char* w, u64 most = 5) { Model m; for (It i = s.begin(), e = s.end(); i != e; ++i) m.push(val_of(*i)); use_up(s, m, w, most); }
RUN(h_sort) {
  S s; u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 4))), shape = sx_split(sx_range("shape", 0, 2));
  place(s, n, 0, sx_param("bits", 16), shape);
  const void* ad[MAXN]; u64 k = 0; for (It i = s.begin(); i != s.end(); ++i) ad[k++] = std::addressof(*i);
  u64 how = sx_split(sx_range("how", 0, sx_param("how", 2)));
  if (how == 0) s.sort(ByKey()); else if (how == 1) s.sort(ByKeyDown()); else s.sort();
  ordered(s, n, how == 1);
  k = 0; for (It i = s.begin(); i != s.end(); ++i, ++k) CHECK(std::addressof(*i) == ad[k], "sorting invalidates iterators");
#if ELEM == 1
  CHECK(st.live == n, "sorting leaks or destroys elements");
#endif
  use_up_now(s, "a sorted sequence does not take further edits", n > 8 ? 3 : 12);
  sx_trace(n); sx_cover("sort checked");
}
// Longer sequences whose keys are a fixed pattern except for two arbitrary ones at chosen places.
static u64 pattern(u64 i, u64 n, u64 pat) { return pat == 0 ? 1000 : pat == 1 ? 1000 + i % 3 : pat == 2 ? 1000 + (n - i) / 2 : 1000 + (i * 7) % 5; }
RUN(h_sort_long) {
  S s; u64 n = sx_split(sx_range("n", sx_param("nmin", 17), sx_param("n", 20))), pat = sx_split(sx_range("pattern", 0, sx_param("pat", 3))), how = sx_split(sx_range("how", 0, 1));
  u64 where = sx_split(sx_range("where", 0, 2)), p = where == 0 ? 0 : where == 1 ? n / 2 : n - 1, q = where == 0 ? n - 1 : where == 1 ? n / 3 : n - 2;
  for (u64 i = 0; i < n; ++i) s.push_back(mk(i == p || i == q ? keyed(i, 16) : (pattern(i, n, pat) << 8) | i));
  if (how == 0) s.sort(ByKey()); else s.sort(ByKeyDown());
  ordered(s, n, how == 1);
#if ELEM == 1
  CHECK(st.live == n, "sorting leaks or destroys elements");
#endif
  use_up_now(s, "a sorted sequence does not take further edits", n > 8 ? 3 : 12);
  sx_trace(n); sx_cover("long sort checked");
}
RUN(h_merge_long) {
  S a, b; u64 n = sx_split(sx_range("n", sx_param("nmin", 8), sx_param("n", 10))), k = sx_split(sx_range("k", sx_param("nmin", 8), sx_param("n", 10))), step = sx_split(sx_range("step", 1, 3));
  u64 p = sx_split(sx_range("p", 0, 2)); p = p == 0 ? 0 : p == 1 ? n / 2 : n - 1; u64 q = k - 1 - p * (k - 1) / n;
  for (u64 i = 0; i < n; ++i) a.push_back(mk(i == p ? keyed(i, 16) : ((1000 + i / step) << 8) | i));
  for (u64 i = 0; i < k; ++i) b.push_back(mk(i == q ? keyed(n + i, 16) : ((1001 + i / 2) << 8) | (n + i)));
  u64 x = key(val_of(a[p])), y = key(val_of(b[q]));  // both sorted
  sx_assume((p == 0 || key(val_of(a[p - 1])) <= x) & (p + 1 == n || x <= key(val_of(a[p + 1]))));
  sx_assume((q == 0 || key(val_of(b[q - 1])) <= y) & (q + 1 == k || y <= key(val_of(b[q + 1]))));
  a.merge(b, ByKey());
  CHECK(b.empty(), "merge leaves elements in the source");
  ordered(a, n + k, false);
  use_up_now(a, "a merged sequence does not take further edits");
  sx_trace(n); sx_cover("long merge checked");
}
RUN(h_merge) {
  S a, b; u64 n = sx_split(sx_range("n", 0, sx_param("n", 4))), k = sx_split(sx_range("k", 0, sx_param("k", 4))), shape = sx_split(sx_range("shape", 0, 2)), bits = sx_param("bits", 8);
  place(a, n, 0, bits, shape); place(b, k, n, bits, shape == 2 ? 0 : shape + 1);
  u64 how = sx_split(sx_range("how", 0, 5)); bool down = how == 1 || how == 5;
  { u64 i = 0, pk = 0; for (It x = a.begin(); x != a.end(); ++x) { u64 v = key(val_of(*x)); if (i++) sx_assume(down ? pk >= v : pk <= v); pk = v; } }
  { u64 i = 0, pk = 0; for (It x = b.begin(); x != b.end(); ++x) { u64 v = key(val_of(*x)); if (i++) sx_assume(down ? pk >= v : pk <= v); pk = v; } }
  u64 cp = st.copy + st.casgn;
  if (how == 0) a.merge(b, ByKey()); else if (how == 1) a.merge(b, ByKeyDown()); else if (how == 2) a.merge(std::move(b), ByKey()); else if (how == 3) a.merge(b); else if (how == 4) a.merge(std::move(b)); else a.merge(std::move(b), ByKeyDown());
  CHECK(b.empty() && b.begin() == b.end() && b.height() == 0, "merge leaves elements in the source");
  ordered(a, n + k, down);
  CHECK(st.copy + st.casgn == cp, "merge copies elements");
#if ELEM == 1
  CHECK(st.live == n + k, "merging leaks or destroys elements");
#endif
  b.push_back(mk(1)); CHECK(b.size() == 1, "the source of a merge cannot be reused");
  use_up_now(a, "a merged sequence does not take further edits"); use_up_now(b, "the source of a merge does not take further edits");
  sx_trace(n); sx_trace(k); sx_cover("merge checked");
}

// ---------------------------------------------------------------- S18
RUN(h_splice) {
  {
  S a, b; Model m, o; pre(a, m);
  u64 bn = sx_split(sx_range("bn", 0, sx_param("bn", 5))), bs = sx_split(sx_range("bshape", 0, sx_param("bshape_hi", 2)));
  build(b, o, bn, bs);
  u64 kind = sx_split(sx_range("kind", 0, 5)), p = sx_range("p", 0, m.n), f = 0, l = 0;
  u64 cp = st.copy + st.casgn;
  CIt pos = a.nth(p);
  switch (kind) {
    case 0: a.splice(pos, b); f = 0; l = o.n; break;
    case 1: a.splice(pos, std::move(b)); f = 0; l = o.n; break;
    case 2: case 3: sx_assume(o.n > 0); f = sx_range("f", 0, o.n - 1); if (kind == 2) a.splice(pos, b, b.nth(f)); else a.splice(pos, std::move(b), b.nth(f)); f = sx_split(f); l = f + 1; break;
    default: f = sx_range("f", 0, o.n); l = sx_range("l", 0, o.n); sx_assume(f <= l); if (kind == 4) a.splice(pos, b, b.nth(f), b.nth(l)); else a.splice(pos, std::move(b), b.nth(f), b.nth(l)); f = sx_split(f); l = sx_split(l); break;
  }
  p = sx_split(p);
  CHECK(st.copy + st.casgn == cp, "splice copies elements");
  for (u64 i = f; i < l; ++i) m.insert(p + i - f, o.a[i]);
  o.erase(f, l);
  same(a, m, "after a splice the target differs from the list"); same(b, o, "after a splice the source differs from the list");
#if ELEM == 1
  CHECK(st.live == m.n + o.n, "splice leaks or destroys elements");
#endif
  sx_trace(m.n); sx_trace(o.n);
  use_up(a, m, "after a splice the target does not take further edits", 5); same(b, o, "using up the target of a splice changes the source"); use_up(b, o, "after a splice the source does not take further edits", 5);
  sx_cover("splice checked");
  }
#if ALLOC != 0
  CHECK(st.blocks == 0, "splice leaks blocks");
#endif
}

// ---------------------------------------------------------------- S19
struct Bit { bool operator()(T const& x) const { return (val_of(x) & 1) != 0; } };
struct Masked { bool operator()(T const& a, T const& b) const { return (val_of(a) ^ val_of(b)) < 4; } };
RUN(h_remove) {
  S s; Model m, r; pre(s, m);
  u64 kind = sx_split(sx_range("kind", 0, 4));
  switch (kind) {
    case 0: { u64 x = sx_val("x"); T t = mk(x); s.remove(t); for (u64 i = 0; i < m.n; ++i) if (!eqv(m.a[i], x)) r.push(m.a[i]); break; }
    case 1: s.remove_if(Bit()); for (u64 i = 0; i < m.n; ++i) if (!(m.a[i] & 1)) r.push(m.a[i]); break;
    case 2: s.unique(); for (u64 i = 0; i < m.n; ++i) if (r.n == 0 || !eqv(r.a[r.n - 1], m.a[i])) r.push(m.a[i]); break;
    case 3: s.unique(Masked()); for (u64 i = 0; i < m.n; ++i) if (r.n == 0 || (r.a[r.n - 1] ^ m.a[i]) >= 4) r.push(m.a[i]); break;
    default: s.reverse(); for (u64 i = m.n; i-- > 0;) r.push(m.a[i]); break;
  }
  same(s, r, kind == 4 ? "reverse" : kind >= 2 ? "unique differs from the list meaning" : "remove differs from the list meaning");
#if ELEM == 1
  CHECK(st.live == r.n, "remove, unique or reverse leaks or destroys elements");
#endif
  u64 y = sx_val("y"); s.push_back(mk(y)); r.push(y); same_by_index(s, r, "after remove, unique or reverse the sequence cannot be edited");
  sx_trace(r.n); use_up(s, r, "after remove, unique or reverse the sequence does not take further edits");
  sx_cover("remove checked");
}

// Longer sequences: fixed patterns of matching elements with two arbitrary ones.
RUN(h_remove_long) {
  S s; Model m, r; u64 n = sx_split(sx_range("n", sx_param("nmin", 10), sx_param("n", 30))), pat = sx_split(sx_range("pattern", 0, 4)), kind = sx_split(sx_range("kind", 0, 4));
  u64 p = sx_split(sx_range("p", 0, 2)), q = p == 0 ? n / 2 : p == 1 ? n - 1 : n / 3; p = p == 0 ? 0 : p == 1 ? n - 2 : n / 3 + 1;
  for (u64 i = 0; i < n; ++i) {
    u64 v = pat == 0 ? 9 : pat == 1 ? 8 : pat == 2 ? 8 + i % 2 : pat == 3 ? 8 + (i / 5) % 2 : i;
    if (i == p || i == q) v = sx_val("v");
    s.push_back(mk(v)); m.push(v);
  }
  switch (kind) {
    case 0: { T t = mk(9); s.remove(t); for (u64 i = 0; i < m.n; ++i) if (!eqv(m.a[i], 9)) r.push(m.a[i]); break; }
    case 1: s.remove_if(Bit()); for (u64 i = 0; i < m.n; ++i) if (!(m.a[i] & 1)) r.push(m.a[i]); break;
    case 2: s.unique(); for (u64 i = 0; i < m.n; ++i) if (r.n == 0 || !eqv(r.a[r.n - 1], m.a[i])) r.push(m.a[i]); break;
    case 3: s.unique(Masked()); for (u64 i = 0; i < m.n; ++i) if (r.n == 0 || (r.a[r.n - 1] ^ m.a[i]) >= 4) r.push(m.a[i]); break;
    default: s.reverse(); for (u64 i = m.n; i-- > 0;) r.push(m.a[i]); break;
  }
  same(s, r, kind == 4 ? "reverse" : kind >= 2 ? "unique differs from the list meaning" : "remove differs from the list meaning");
#if ELEM == 1
  CHECK(st.live == r.n, "remove, unique or reverse leaks or destroys elements");
#endif
  sx_trace(r.n); use_up(s, r, "after remove, unique or reverse the sequence does not take further edits");
  sx_cover("long remove checked");
}

// ---------------------------------------------------------------- S20
RUN(h_alias) {
  S s; Model m; pre(s, m); sx_assume(m.n > 0);
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 11)));
  u64 j = sx_split(sx_range("j", 0, m.n - 1));  // the element used as argument
  u64 p = sx_range("p", 0, m.n), x = m.a[j], c = 0;
  T& e = s[j]; T const& ce = e;
  CIt pos = s.nth(p);
  switch (kind) {
    case 0: s.insert(pos, ce); break;
    case 1: s.emplace(pos, ce); break;
    case 2: { // moving an element of the sequence into the sequence leaves the old place moved-from
      s.insert(pos, std::move(e)); p = sx_split(p);
      if (ELEM == 1) m.a[j] = MOVED_VALUE;
      m.insert(p, x); same(s, m, "inserting a moved element of the same sequence"); sx_cover("alias checked"); return; }
    case 3: s.push_back(ce); p = m.n; break;
    case 4: s.push_front(ce); p = 0; break;
    case 5: s.emplace_back(ce); p = m.n; break;
    case 6: s.emplace_front(ce); p = 0; break;
    case 7: c = sx_split(sx_range("c", 0, sx_param("c", 4))); s.insert(pos, (S::size_type)c, ce); p = sx_split(p); for (u64 i = 0; i < c; ++i) m.insert(p, x); break;
    case 8: { u64 d = sx_split(sx_range("d", 0, m.n + sx_param("c", 4))); s.resize((S::size_type)d, ce); if (d < m.n) m.n = d; while (m.n < d) m.push(x); c = 1; break; }
    case 9: { Model r; s.remove(ce); for (u64 i = 0; i < m.n; ++i) if (!eqv(m.a[i], x)) r.push(m.a[i]); m = r; c = 1; break; }
    case 10: { // chained insertions of the same element's value through fresh references
      s.insert(pos, ce); p = sx_split(p); m.insert(p, x); u64 k = j + (p <= j); s.insert(s.nth(0), s[k]); m.insert(0, x); c = 1; break; }
    default: s.emplace(pos, std::move(e)); p = sx_split(p); if (ELEM == 1) m.a[j] = MOVED_VALUE; m.insert(p, x); c = 1; break;
  }
  if (kind < 7) { p = sx_split(p); m.insert(p, x); }
  same(s, m, "an argument that is an element of the sequence gives another result than a separate value");
  sx_trace(m.n); use_up(s, m, "after an edit with an element of its own the sequence does not take further edits");
  sx_cover("alias checked");
}
