// S01, S02, S03, S04, S05, S07: large sequences (wide nodes with hundreds of children, several full levels, the default
// configuration beyond 10000 elements).  The contents are a function of the position, so no model array limits the size;
// positions are symbolic inside windows around the ends, node boundaries and child counts of special width.
#include "common.h"
typedef S::difference_type D;
static u64 n;
static NOINLINE void fill(S& s, u64 how) {
  if (how == 0) for (u64 i = 0; i < n; ++i) s.push_back(mk(i));
  else if (how == 1) for (u64 i = 0; i < n; ++i) s.push_front(mk(n - 1 - i));
  else { u64 h = n / 2; for (u64 i = 0; i < h; ++i) s.insert(s.nth(i), mk(i)); for (u64 i = n; i > h; --i) s.insert(s.nth(h), mk(i - 1)); }
}
static NOINLINE u64 centre(u64 how, u64 w) {
  u64 leaf = ((SEGMAX + 1) / 2) * ((BASEMAX + 1) / 2), branch = leaf * ((BASEMAX + 1) / 2), c;
  switch (w) {
    case 0: c = 0; break;
    case 1: c = leaf; break;
    case 2: c = 255 * leaf; break;
    case 3: c = 256 * leaf; break;
    case 4: c = branch; break;
    case 5: c = branch + leaf; break;
    case 6: c = n / 2; break;
    case 7: c = 256 * ((SEGMAX + 1) / 2); break;
    default: c = n; break;
  }
  if (c > n) c = n - n / 5;
  return how == 1 ? n - c : c;
}
static NOINLINE u64 window(u64 how, const char* name, u64 w, u64 r, u64 last) {
  u64 c = centre(how, w), lo = c > r ? c - r : 0, hi = c + r < last ? c + r : last;
  if (lo > hi) lo = hi;
  return sx_range(name, lo, hi);
}
// contents: position i holds i, with [p, p + k) removed, or k elements of value x inserted at p
static NOINLINE void contents(S& s, u64 p, u64 ins, u64 del, u64 x, const char* what) {
  u64 z = n + ins - del, k = 0; bool ok = true;
  CHECK(s.size() == z, what);
  for (It i = s.begin(), e = s.end(); i != e; ++i, ++k) { u64 v = k < p ? k : k < p + ins ? x : k - ins + del; ok &= k < z && val_of(*i) == v; if (k > z) break; }
  CHECK(ok && k == z, what);
  It i = s.end(), b = s.begin();
  for (; k > 0 && i != b;) { --i; --k; u64 v = k < p ? k : k < p + ins ? x : k - ins + del; ok &= val_of(*i) == v; }
  CHECK(ok && k == 0 && i == b, what);
}
static NOINLINE void here(S& s, It r, u64 p, u64 v, const char* what) {
  CHECK(s.index_of(r) == p, what);
  if (p < s.size()) CHECK(val_of(*r) == v, what); else CHECK(r == s.end(), what);
  CHECK(r == s.nth(p) && r - s.begin() == (D)p && s.end() - r == (D)(s.size() - p), what);
}
RUN(h_far) {
  n = sx_param("n", 3000);
  S s; S const& c = s;
  u64 how = sx_split(sx_range("how", sx_param("how_lo", 0), sx_param("how_hi", 2)));
  fill(s, how);
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 7)));
  u64 w = kind >= 6 ? 0 : sx_split(sx_range("window", 0, 8)), r = sx_param("radius", 2);
  switch (kind) {
    case 0: {  // every route to p
      u64 p = window(how, "p", w, r, n - 1);
      It a = s.nth(p); CIt b = c.nth(p);
      CHECK(val_of(*a) == p && val_of(*b) == p && val_of(s[p]) == p && val_of(c.at(p)) == p, "a lookup in a large sequence finds another element");
      CHECK(val_of(*(s.begin() + (D)p)) == p && val_of(*(s.end() - (D)(n - p))) == p && val_of(c.begin()[(D)p]) == p, "a jump from an end of a large sequence finds another element");
      CHECK(s.index_of(a) == p && c.index_of(b) == p && a.current() == b.current(), "a lookup in a large sequence gives another index");
      break; }
    case 1: {  // steps and jumps from p
      u64 p = window(how, "p", w, r, n - 1); It i = s.nth(p);
      if (sx_bool("forward")) { u64 q = p; for (u64 k = 0; k < 5 && q < n; ++k) { CHECK(val_of(*i) == q, "stepping forward through a large sequence goes astray"); ++i; ++q; } here(s, i, q, q, "stepping forward through a large sequence goes astray"); }
      else { u64 q = p; for (u64 k = 0; k < 5 && q > 0; ++k) { --i; --q; CHECK(val_of(*i) == q, "stepping back through a large sequence goes astray"); } here(s, i, q, q, "stepping back through a large sequence goes astray"); }
      break; }
    case 2: {
      u64 p = window(how, "p", w, 1, n), q = window(how, "q", sx_split(sx_range("to", 0, 8)), 1, n); It i = s.nth(p), j = s.nth(q);
      D d = (D)q - (D)p;
      CHECK(j - i == d && i - j == -d && (i < j) == (p < q) && (i == j) == (p == q), "distance or order of far positions");
      It k = i + d, m = j; m -= d;
      here(s, k, q, q, "a far jump goes astray"); here(s, m, p, p, "a far jump back goes astray");
      break; }
    case 3: {
      u64 p = window(how, "p", w, r, n), x = sx_val("x"); It i = s.insert(s.nth(p), mk(x));
      here(s, i, p, x, "insertion into a large sequence returns another iterator");
      p = sx_split(p); contents(s, p, 1, 0, x, "insertion into a large sequence is not the list edit");
      break; }
    case 4: {
      u64 p = window(how, "p", w, r, n - 1); It i = s.erase(s.nth(p));
      here(s, i, p, p + 1, "erasure from a large sequence returns another iterator");
      p = sx_split(p); contents(s, p, 0, 1, 0, "erasure from a large sequence is not the list edit");
      break; }
    case 5: {  // long runs of edits through returned iterators, then the way back
      u64 p = sx_split(window(how, "p", w, 0, n)), k = sx_param("run", 300); It i = s.nth(p);
      if (sx_bool("insert")) {
        for (u64 j = 0; j < k; ++j) i = s.insert(i, mk(n + 7));
        contents(s, p, k, 0, n + 7, "a run of insertions into a large sequence is not the list edit");
        here(s, i, p, n + 7, "a run of insertions returns another iterator");
        for (u64 j = 0; j < k; ++j) i = s.erase(i);
        contents(s, p, 0, 0, 0, "erasing what was inserted does not restore a large sequence");
      } else {
        if (p + k > n) p = n - k; i = s.nth(p);
        for (u64 j = 0; j < k; ++j) i = s.erase(i);
        here(s, i, p, p + k, "a run of erasures returns another iterator");
        contents(s, p, 0, k, 0, "a run of erasures from a large sequence is not the list edit");
      }
      break; }
    case 6: {  // whole traversals
      contents(s, 0, 0, 0, 0, "traversing a large sequence");
      u64 k = 0; bool ok = true;
      for (It i = s.begin(), e = s.end(); i != e; i.move_after_segment()) for (T* q = std::addressof(*i.begin()), *z = q + (i.end() - i.begin()); q != z; ++q) ok &= val_of(*q) == k++;
      CHECK(ok && k == n, "the blocks of a large sequence are not its elements in order");
      for (u64 q = 0; q < n; q += 1 + n / 500) ok &= val_of(c[q]) == q && val_of(*c.nth(q)) == q;
      CHECK(ok, "lookups in a large sequence");
      break; }
    default: {  // drain completely from one side or from the middle
      u64 way = sx_split(sx_range("way", 0, 2)); bool ok = true;
      for (u64 left = n; left > 0;) {
        u64 q = way == 0 ? 0 : way == 1 ? left - 1 : left / 2;
        ok &= s.size() == left;
        if (way == 0) { ok &= val_of(s.front()) == n - left; s.pop_front(); }
        else if (way == 1) { ok &= val_of(s.back()) == left - 1; s.pop_back(); }
        else s.erase(s.nth(q));
        --left;
        if (left % (1 + n / 40) == 0 && left) ok &= val_of(s.front()) == (way == 0 ? n - left : 0) && val_of(s[left - 1]) == (way == 1 ? left - 1 : n - 1);
        if (way != 2 && left > 1) ok &= val_of(s[left / 2]) == (way == 0 ? n - left + left / 2 : left / 2);
      }
      CHECK(ok && s.empty() && s.height() == 0 && s.begin() == s.end(), "draining a large sequence");
      break; }
  }
  CHECK(s.size() <= s.max_size(), "a sequence is larger than its max_size()");
  sx_trace(s.size()); sx_trace(s.height()); sx_cover("far checked");
}

// S03, S06, S13, S17, S18, S19: operations that handle more than 65535 elements in one call.
// f(k) is the expected value at position k, described by up to three pieces [value, value + step, ...).
struct Piece { u64 len, first, step; };
static NOINLINE void pieces(S& s, Piece a, Piece b, Piece c, const char* what) {
  Piece ps[3] = {a, b, c}; u64 z = a.len + b.len + c.len; bool ok = true;
  CHECK(s.size() == z, what);
  It i = s.begin();
  for (int q = 0; q < 3; ++q) { u64 v = ps[q].first; for (u64 k = 0; k < ps[q].len; ++k, ++i, v += ps[q].step) ok &= val_of(*i) == v; }
  CHECK(ok && i == s.end(), what);
  u64 m = a.len, m2 = a.len + b.len;
  if (b.len) CHECK(val_of(s[m]) == b.first && val_of(s[m2 - 1]) == b.first + (b.len - 1) * b.step, what);
  if (c.len) CHECK(val_of(s[m2]) == c.first && val_of(s.back()) == c.first + (c.len - 1) * c.step, what);
}
struct Gen {  // multi-pass source of x, x + step, ...
  typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T reference;
  u64 v, k, step;
  T operator*() const { return mk(v + k * step); }
  Gen& operator++() { ++k; return *this; }
  Gen operator++(int) { Gen g = *this; ++k; return g; }
  bool operator==(Gen const& o) const { return k == o.k; }
  bool operator!=(Gen const& o) const { return k != o.k; }
};
RUN(h_vast) {
  n = sx_param("n", 500); u64 c = sx_param("c", 66000);
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 8)));
  Piece none = {0, 0, 0};
  S s; fill(s, 0);
  u64 at = kind <= 2 || kind == 6 ? sx_split(sx_range("where", 0, 2)) : 0, p = at == 0 ? 0 : at == 1 ? n / 2 : n, x = sx_val("x") >> 24;
  Piece l = {p, 0, 1}, r = {n - p, p, 1};
  switch (kind) {
    case 0: { It i = s.insert(s.nth(p), c, mk(x)); Piece m = {c, x, 0};
      pieces(s, l, m, r, "inserting a large count"); here(s, i, p, x, "inserting a large count returns another iterator"); break; }
    case 1: { Gen f = {x, 0, 1}, g = {x, c, 1}; It i = s.insert(s.nth(p), f, g); Piece m = {c, x, 1};
      pieces(s, l, m, r, "inserting a large range"); here(s, i, p, x, "inserting a large range returns another iterator"); break; }
    case 2: { Gen f = {n, 0, 1}, g = {n, c, 1}; s.insert(s.end(), f, g);
      It i = s.erase(s.nth(p), s.nth(p + c)); Piece m = {n - p, p + c, 1};
      pieces(s, l, m, none, "erasing a large range"); here(s, i, p, p + c, "erasing a large range returns another iterator"); break; }
    case 3: { s.resize(n + c, mk(x)); Piece m = {c, x, 0}; pieces(s, Piece{n, 0, 1}, m, none, "growing by a large count");
      s.resize(n); pieces(s, Piece{n, 0, 1}, none, none, "shrinking by a large count");
      s.assign(c, mk(x)); pieces(s, none, m, none, "assigning a large count");
      s.assign(n, mk(x + 1)); pieces(s, none, Piece{n, x + 1, 0}, none, "assigning a small count to a large sequence"); break; }
    case 4: { Gen f = {x, 0, 2}, g = {x, c, 2}; Piece m = {c, x, 2};
      s.assign(f, g); pieces(s, none, m, none, "assigning a large range");
      S t(f, g); pieces(t, none, m, none, "construction from a large range");
      CHECK(s == t && !(s != t) && !(s < t) && s <= t, "comparing large equal sequences");
      t.back() = mk(x + 2 * c); CHECK(!(s == t) && s < t && !(t < s), "comparing large sequences that differ at the end");
      t.resize(c - 1, mk(0)); CHECK(!(s == t) && t < s, "comparing a large sequence with its prefix");
      S u(c, mk(x)); pieces(u, none, Piece{c, x, 0}, none, "construction from a large count"); break; }
    case 5: { Gen f = {x, 0, 1}, g = {x, c, 1}; S t(f, g); Piece m = {c, x, 1}, a = {n, 0, 1};
      S u(t); pieces(u, none, m, none, "copying a large sequence");
      u = s; pieces(u, a, none, none, "copy assignment over a large sequence");
      u = t; pieces(u, none, m, none, "copy assignment of a large sequence"); pieces(t, none, m, none, "the source of a large copy");
      S w(std::move(t)); pieces(w, none, m, none, "moving a large sequence"); CHECK(t.empty() && t.begin() == t.end(), "the source of a large move");
      w.swap(s); pieces(w, a, none, none, "swapping with a large sequence"); pieces(s, none, m, none, "swapping with a large sequence");
      w = std::move(s); pieces(w, none, m, none, "move assignment of a large sequence"); w.clear(); CHECK(w.empty() && w.begin() == w.end() && w.height() == 0, "clearing a large sequence"); break; }
    case 6: { if (sx_param("total", 0)) c = sx_param("total", 0) - n - 10;  // the whole sequence is spliced first
      Gen f = {x, 0, 1}, g = {x, c + 10, 1}; S t(f, g), t2(t);
      s.splice(s.nth(p), t); pieces(s, l, Piece{c + 10, x, 1}, r, "splicing a large sequence"); CHECK(t.empty(), "splicing a large sequence leaves the source empty");
      S v; Gen h = {0, n, 1}, h0 = {0, 0, 1}; v.assign(h0, h);
      v.splice(v.nth(p), t2, t2.nth(3), t2.nth(3 + c)); pieces(v, l, Piece{c, x + 3, 1}, r, "splicing a large range");
      pieces(t2, Piece{3, x, 1}, Piece{7, x + 3 + c, 1}, none, "the source of a large splice"); break; }
    case 7: { Gen f = {0, 0, 1}, g = {0, c, 1}; s.assign(f, g);
      s.reverse(); pieces(s, none, Piece{c, c - 1, (u64)-1}, none, "reversing a large sequence");
      s.remove_if([](T const& e) { return val_of(e) % 2 != 0; }); u64 z = (c + 1) / 2; pieces(s, none, Piece{z, 2 * (z - 1), (u64)-2}, none, "remove_if on a large sequence");
      s.unique([](T const& a, T const& b) { return val_of(a) / 4 == val_of(b) / 4; }); u64 q = (2 * (z - 1)) / 4 + 1; bool ok = s.size() == q; for (It i = s.begin(); i != s.end(); ++i) { --q; ok &= val_of(*i) / 4 == q; } CHECK(ok && q == 0, "unique on a large sequence");
      break; }
    case 8: { Gen f = {0, 0, 1}, g = {0, c, 1}; s.assign(f, g); u64 k = 0, blocks = 0; bool ok = true;
      for (It i = s.begin(), e = s.end(); i != e; i.move_after_segment()) { ++blocks; for (T* q = std::addressof(*i.begin()), *z = q + (i.end() - i.begin()); q != z; ++q) ok &= val_of(*q) == k++; }
      CHECK(ok && k == c, "the blocks of a large sequence are not its elements in order");
      for (It i = s.penultimate();;) { u64 len = i.end() - i.begin(); for (u64 q = len; q-- > 0;) ok &= val_of(i.begin()[q]) == --k; --blocks; if (k == 0) break; i.move_before_segment(); }
      CHECK(ok && k == 0 && blocks == 0, "the blocks of a large sequence backwards are not its elements in reverse order");
      It i = s.begin(); i += (D)(c - 1); CHECK(val_of(*i) == c - 1 && i - s.begin() == (D)(c - 1) && s.index_of(i) == c - 1, "a jump across a large sequence"); i -= (D)(c - 1); CHECK(i == s.begin() && val_of(s.begin()[(D)c - 1]) == c - 1, "a jump back across a large sequence");
      k = 0; ok = true; for (S::reverse_iterator j = s.rbegin(), z = s.rend(); j != z; ++j) ok &= val_of(*j) == c - ++k; CHECK(ok && k == c, "a large sequence backwards");
      break; }
    default: {  // sort and merge: value * 4 + original order within equal values, ordered by value only
      s.clear(); u64 y = 1; auto less = [](T const& a, T const& b) { return val_of(a) / 0x100000 < val_of(b) / 0x100000; };
      for (u64 k = 0; k < c; ++k) { y = y * 6364136223846793005ull + 1442695040888963407ull; s.push_back(mk((y >> 33) % (c / 4) * 0x100000 + k)); }
      S t; for (u64 k = 0; k < c / 8; ++k) t.push_back(mk(3 * k * 0x100000 + c + k));
      s.sort(less); bool ok = s.size() == c; u64 last = 0, sum = 0, k = 0;
      for (It i = s.begin(); i != s.end(); ++i, ++k) { u64 v = val_of(*i); ok &= k == 0 || last < v; last = v; sum += v % 0x100000; }
      CHECK(ok && k == c && sum == c * (c - 1) / 2, "sorting a large sequence is not a stable sorted permutation");
      s.merge(t, less); ok = s.size() == c + c / 8 && t.empty(); last = 0, sum = 0, k = 0;
      for (It i = s.begin(); i != s.end(); ++i, ++k) { u64 v = val_of(*i); ok &= k == 0 || last < v; last = v; sum += v % 0x100000; }
      u64 z = c + c / 8; CHECK(ok && k == z && sum == z * (z - 1) / 2, "merging large sequences is not a stable sorted permutation");
      break; }
  }
  CHECK(s.size() <= s.max_size(), "a sequence is larger than its max_size()");
  sx_trace(s.size()); sx_trace(s.height()); sx_cover("vast checked");
}
