// S13..S16: copies, moves, swaps, allocator propagation, comparisons.
#include "common.h"
#include <algorithm>
#include <vector>
static const void* addr[MAXN];
static NOINLINE void pre(S& s, Model& m, const char* nm, u64 hi) {
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range(nm, sx_param("nmin", 0), hi));
  build(s, m, n, shape);
}
static NOINLINE void small(S& s, Model& m, const char* nm, u64 hi) {
  u64 k = sx_split(sx_range(nm, 0, hi));
  for (u64 i = 0; i < k; ++i) add(s, m, i / 2);
}
static NOINLINE void table(S& s) { u64 k = 0; for (It i = s.begin(); i != s.end(); ++i) addr[k++] = std::addressof(*i); }
static NOINLINE void same_objects(S& s, u64 n, const char* w) {
  CHECK(s.size() == n, w); u64 k = 0;
  for (It i = s.begin(); i != s.end(); ++i) { CHECK(std::addressof(*i) == addr[k], w); ++k; }
}
static NOINLINE void own_only(S const& s) {
#if ALLOC == 1 || ALLOC == 2
  st.only_id = s.get_allocator().id;
#endif
}
static NOINLINE void edit(S& s, Model& m) {
  own_only(s);
  if (m.n && sx_bool("erase")) { u64 p = sx_range("p", 0, m.n - 1); s.erase(s.nth(p)); p = sx_split(p); m.erase(p); }
  else { u64 p = sx_range("p", 0, m.n), x = sx_val("x"); s.insert(s.nth(p), mk(x)); p = sx_split(p); m.insert(p, x); }
  st.only_id = 0;
}

RUN(h_copy) {
  {
  S a; Model m; pre(a, m, "n", sx_param("n", 8)); table(a);
  u64 kind = sx_split(sx_range("kind", 0, 3));
  if (kind == 3) {  // self-assignment
    S& r = a; a = r; same(a, m, "self-assignment changes the contents"); sx_cover("self-assignment checked"); return;
  }
  Model bm = m;
  if (kind == 0) {
    S b(a); same(b, bm, "a copy differs from its source"); same(a, m, "copy construction changes the source"); same_objects(a, m.n, "copy construction moves the source's elements");
    CHECK(b == a && !(b != a), "a copy does not compare equal to its source");
    bool which = sx_bool("edit_source"); edit(which ? a : b, which ? m : bm);
    same(a, m, "editing a copy changes the source"); same(b, bm, "editing the source changes a copy");
    if (sx_bool("clear_source")) { a.clear(); m.n = 0; same(b, bm, "clearing the source changes a copy"); }
    use_up(b, bm, "a copy does not take further edits"); same(a, m, "using up a copy changes the source"); use_up(a, m, "the source of a copy does not take further edits");
    sx_cover("copy construction checked");
  } else if (kind == 1) {
    S b; Model old; small(b, old, "target", sx_param("t", 6));
    S& r = (b = a); CHECK(&r == &b, "copy assignment returns another object");
    same(b, bm, "the target of a copy assignment differs from its source"); same(a, m, "copy assignment changes the source"); same_objects(a, m.n, "copy assignment moves the source's elements");
    bool which = sx_bool("edit_source"); edit(which ? a : b, which ? m : bm);
    same(a, m, "editing the target of a copy assignment changes the source"); same(b, bm, "editing the source changes the target of a copy assignment");
    use_up(b, bm, "the target of a copy assignment does not take further edits"); same(a, m, "using up the target of a copy assignment changes the source"); use_up(a, m, "the source of a copy assignment does not take further edits");
    sx_cover("copy assignment checked");
  } else {
    S b(a, a.get_allocator()); same(b, bm, "an allocator-extended copy differs from its source"); same(a, m, "allocator-extended copy construction changes the source");
    bool which = sx_bool("edit_source"); edit(which ? a : b, which ? m : bm);
    same(a, m, "editing a copy changes the source"); same(b, bm, "editing the source changes a copy");
    use_up(b, bm, "a copy does not take further edits"); same(a, m, "using up a copy changes the source");
    sx_cover("extended copy checked");
  }
  sx_trace(m.n); sx_trace(bm.n);
  }
#if ELEM == 1
  CHECK(st.live == 0, "copies leak elements");
#endif
#if ALLOC != 0
  CHECK(st.blocks == 0, "copies leak blocks");
#endif
}

RUN(h_move) {
  {
  S a; Model m; pre(a, m, "n", sx_param("n", 10)); table(a);
  u64 kind = sx_split(sx_range("kind", 0, 5));
  u64 ops = elem_ops(), allocs = st.alloc_calls;
  const char* w = "elements are relocated by a move or swap";
  Model none;
  u64 q = m.n ? sx_split(sx_range("kept", 0, m.n - 1)) : 0;  // an iterator kept across the transfer
  It kept = m.n ? a.nth(q) : It();
  if (kind == 0 || kind == 1) {
    S b(kind == 0 ? S(std::move(a)) : S(std::move(a), a.get_allocator()));
    CHECK(elem_ops() == ops && st.alloc_calls == allocs, "move construction performs element operations or allocates");
    same_objects(b, m.n, w); same(b, m, "move construction loses the contents"); same(a, none, "a moved-from sequence is not empty");
    CHECK(a.height() == 0 && a.begin() == a.end(), "a moved-from sequence keeps a tree");
    if (m.n) { CHECK(kept.current() == addr[q] && b.index_of(kept) == q, "an iterator does not survive a move"); It n = kept; ++n; CHECK(q + 1 < m.n ? n.current() == addr[q + 1] : n == b.end(), "an iterator does not survive a move"); if (sx_bool("via")) { b.erase(kept); m.erase(q); same(b, m, "erasing through an iterator kept across a move"); } }
    Model am;
    if (sx_bool("edit_target")) { edit(b, m); same(b, m, "a moved sequence cannot be edited"); }
    else { edit(a, am); edit(a, am); same(a, am, "a moved-from sequence cannot be reused"); }
    use_up(b, m, "a moved sequence does not take further edits"); use_up(a, am, "a moved-from sequence does not take further edits");
    sx_cover("move construction checked");
  } else if (kind == 2 || kind == 3) {
    S b; Model old; small(b, old, "target", sx_param("t", 4));
    ops = st.def + st.val + st.copy + st.move + st.casgn + st.masgn; allocs = st.alloc_calls; u64 d = st.dtor;
    S& r = (b = std::move(a)); CHECK(&r == &b, "move assignment returns another object");
    CHECK(st.def + st.val + st.copy + st.move + st.casgn + st.masgn == ops && st.alloc_calls == allocs, "move assignment touches elements or allocates");
#if ELEM == 1
    CHECK(st.dtor - d == old.n, "move assignment does not destroy exactly the target's old elements"); CHECK(st.live == m.n, "move assignment leaks elements");
#endif
    same_objects(b, m.n, w); same(b, m, "move assignment loses the contents"); same(a, none, "a moved-from sequence is not empty");
    if (m.n) { CHECK(kept.current() == addr[q] && b.index_of(kept) == q, "an iterator does not survive a move assignment"); if (sx_bool("via")) { b.erase(kept); m.erase(q); same(b, m, "erasing through an iterator kept across a move assignment"); } }
    if (kind == 3) { a = std::move(b); same(a, m, "moving back loses the contents"); same(b, none, "a moved-from sequence is not empty"); edit(a, m); same(a, m, "a sequence moved back cannot be edited"); use_up(a, m, "a sequence moved back does not take further edits"); }
    else { edit(b, m); same(b, m, "a move-assigned sequence cannot be edited"); Model am; edit(a, am); same(a, am, "a moved-from sequence cannot be reused"); use_up(b, m, "a move-assigned sequence does not take further edits"); use_up(a, am, "a moved-from sequence does not take further edits"); }
    sx_cover("move assignment checked");
  } else if (kind == 4) {
    S b; Model old; small(b, old, "target", sx_param("t", 6));
    const void* baddr[16]; u64 k = 0; for (It i = b.begin(); i != b.end(); ++i) baddr[k++] = std::addressof(*i);
    ops = elem_ops(); allocs = st.alloc_calls; u64 f = st.frees;
    if (sx_bool("friend")) { using std::swap; swap(a, b); } else a.swap(b);
    CHECK(elem_ops() == ops && st.alloc_calls == allocs && st.frees == f, "swap touches elements or memory");
    same_objects(b, m.n, w); same(b, m, "swap loses the first contents"); same(a, old, "swap loses the second contents");
    k = 0; for (It i = a.begin(); i != a.end(); ++i) { CHECK(std::addressof(*i) == baddr[k], w); ++k; }
    if (m.n) CHECK(kept.current() == addr[q] && b.index_of(kept) == q, "an iterator does not survive a swap");
    bool which = sx_bool("edit_second"); edit(which ? b : a, which ? m : old);
    same(b, m, "a swapped sequence cannot be edited"); same(a, old, "a swapped sequence cannot be edited");
    use_up(b, m, "a swapped sequence does not take further edits"); use_up(a, old, "a swapped sequence does not take further edits");
    sx_cover("swap checked");
  } else {  // self-move and self-swap leave a valid sequence
    if (sx_bool("swap")) { a.swap(a); same(a, m, "self-swap changes the contents"); }
    else { S& r = a; a = std::move(r); u64 k = 0; for (It i = a.begin(); i != a.end(); ++i) ++k; CHECK(k == a.size(), "self-move leaves an invalid sequence"); a.clear(); m.n = 0; }
    edit(a, m); same(a, m, "a self-moved or self-swapped sequence cannot be edited");
    sx_cover("self-move checked");
  }
  sx_trace(m.n);
  }
#if ELEM == 1
  CHECK(st.live == 0, "moves leak or double-destroy elements");
#endif
#if ALLOC != 0
  CHECK(st.blocks == 0 && st.null_frees == 0, "moves leak blocks");
#endif
}

// ---------------------------------------------------------------- S14: sequences as the elements of containers
// An inner sequence is known by its tag: it holds tag % 3 + (tag != 0) elements with values 16 * tag + k (none for tag 0).
static NOINLINE S inner(u64 tag) { S s; if (tag) for (u64 k = 0; k <= tag % 3; ++k) s.push_back(mk(16 * tag + k)); return s; }
static const void* home[64];   // where the first element of each inner sequence lives
static NOINLINE u64 tag_of(S const& s) {
  if (s.empty()) { CHECK(s.height() == 0 && s.begin() == s.end(), "an element of a container of sequences keeps a tree"); return 0; }
  u64 tag = val_of(s[0]) / 16, k = 0;
  CHECK(s.size() == tag % 3 + 1, "an element of a container of sequences loses elements");
  for (CIt i = s.begin(); i != s.end(); ++i, ++k) CHECK(val_of(*i) == 16 * tag + k, "an element of a container of sequences changes");
  return tag;
}
struct ByTag { bool operator()(S const& a, S const& b) const { return (a.empty() ? 0 : val_of(a[0])) < (b.empty() ? 0 : val_of(b[0])); } };
struct IsEmpty { bool operator()(S const& a) const { return a.empty(); } };
template <class C> static NOINLINE void all_there(C const& c, Model const& m, const char* w) {
  u64 k = 0; CHECK(c.size() == m.n, w);
  for (typename C::const_iterator i = c.begin(); i != c.end(); ++i, ++k) {
    CHECK(tag_of(*i) == m.a[k], w);
    if (m.a[k]) CHECK(std::addressof((*i)[0]) == home[m.a[k]], "moving sequences about in a container relocates their elements");
  }
}
template <class C> static NOINLINE void nested() {
  { C c; Model m;
  u64 n = sx_split(sx_range("n", 0, sx_param("n", 7)));
  for (u64 i = 0; i <= n; ++i) {   // n sequences, and one more to insert
    u64 tag = i % 4 == 2 ? 0 : i + 1; S s(inner(tag)); if (tag) home[tag] = std::addressof(s[0]);
    u64 ops = elem_ops(), allocs = st.alloc_calls;
    if (i < n) { c.push_back(std::move(s)); m.push(tag); }
    else { u64 p = sx_split(sx_range("p", 0, n)); c.insert(c.begin() + (std::ptrdiff_t)p, std::move(s)); m.insert(p, tag); }
    CHECK(elem_ops() == ops && st.alloc_calls == allocs, "moving a sequence into a container touches its elements");
  }
  all_there(c, m, "sequences moved into a container");
  u64 ops = st.def + st.val + st.copy + st.move + st.casgn + st.masgn, allocs = st.alloc_calls, gone = st.dtor, expect = 0;
  u64 what = sx_split(sx_range("what", 0, 6));
  switch (what) {
    case 0: { u64 p = sx_split(sx_range("q", 0, m.n - 1)); expect = c[p].size(); c.erase(c.begin() + (std::ptrdiff_t)p); m.erase(p); break; }
    case 1: std::stable_sort(c.begin(), c.end(), ByTag()); for (u64 i = 1; i < m.n; ++i) for (u64 j = i; j > 0 && m.a[j] < m.a[j - 1]; --j) { u64 x = m.a[j]; m.a[j] = m.a[j - 1]; m.a[j - 1] = x; } break;
    case 2: std::reverse(c.begin(), c.end()); for (u64 i = 0, j = m.n - 1; i < j; ++i, --j) { u64 x = m.a[j]; m.a[j] = m.a[i]; m.a[i] = x; } break;
    case 3: c.resize((typename C::size_type)(m.n + 3)); for (u64 i = 0; i < 3; ++i) m.push(0); break;
    case 4: { u64 p = sx_split(sx_range("q", 0, m.n - 1)), r = sx_split(sx_range("r", 0, m.n - 1)); using std::swap; if (p != r) { swap(c[p], c[r]); u64 x = m.a[p]; m.a[p] = m.a[r]; m.a[r] = x; } break; }
    case 5: c.erase(std::remove_if(c.begin(), c.end(), IsEmpty()), c.end()); { u64 k = 0; for (u64 i = 0; i < m.n; ++i) if (m.a[i]) m.a[k++] = m.a[i]; m.n = k; } break;
    default: { C d(std::move(c)); CHECK(c.empty(), "moved container"); c.push_back(S()); c = std::move(d); break; }
  }
  CHECK(st.def + st.val + st.copy + st.move + st.casgn + st.masgn == ops && st.alloc_calls == allocs, "moving sequences about in a container touches their elements");
#if ELEM == 1
  CHECK(st.dtor - gone == expect, "moving sequences about in a container destroys their elements");
#endif
  all_there(c, m, "sequences moved about in a container");
  u64 p = 0; while (p < m.n && m.a[p] == 0) ++p;
  if (p < m.n) { C d(c); d[p].push_back(mk(1)); CHECK(tag_of(c[p]) == m.a[p] && d[p].size() == c[p].size() + 1 && d[p][0] == c[p][0], "copies of containers of sequences"); c[p].erase(c[p].begin()); CHECK(c[p].size() == m.a[p] % 3, "an inner sequence cannot be edited"); }
  sx_trace(m.n); sx_cover("containers of sequences checked");
  }
#if ELEM == 1
  CHECK(st.live == 0, "containers of sequences leak or double-destroy elements");
#endif
#if ALLOC != 0
  CHECK(st.blocks == 0 && st.null_frees == 0, "containers of sequences leak blocks");
#endif
}
typedef boost::segmented_tree::seq<S, std::allocator<S>, 2 * sizeof(S), 16 + 16 * 3> Outer;
RUN(h_nested) { if (sx_split(sx_range("outer", 0, 1)) == 0) nested<std::vector<S>>(); else nested<Outer>(); }


// ---------------------------------------------------------------- S15 (ALLOC >= 1)
#if ALLOC == 1 || ALLOC == 2
#ifdef SELECT_STEP
static const u64 SEL = SELECT_STEP;
#else
static const u64 SEL = 0;
#endif
static NOINLINE void owner(S const& s, u64 id, const char* w) { CHECK(s.get_allocator().id == id, w); CHECK(s.get_stored_allocator().id == id, w); }
// once a is cleared every outstanding block is b's, so it must carry the identity of b's allocator
static NOINLINE void alone(S& a, S& b, const char* w) {
  a.clear();
  for (u64 i = 0; i < 16; ++i) CHECK(i == b.get_allocator().id || st.blocks_of[i] == 0, w);
  CHECK(b.empty() == (st.blocks_of[b.get_allocator().id] == 0), w);
}
RUN(h_alloc_owner) {
  {
  u64 ia = 1, ib = sx_split(sx_range("b_id", 1, 2));
  S a((A(ia))); Model m; pre(a, m, "n", sx_param("n", 7)); table(a);
  u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", 10)));
  Model none;
  bool equal = ia == ib;
  const char* w = "the wrong allocator is reported";
  switch (kind) {
    case 0: { S b(a); owner(b, ia + SEL, w); owner(a, ia, w); same(b, m, "copy"); edit(b, m); same(b, m, "copy edited"); alone(a, b, "after a copy"); sx_cover("copy construction"); break; }
    case 1: { S b(a, A(ib)); owner(b, ib, w); owner(a, ia, w); same(b, m, "allocator-extended copy"); same(a, m, "source of an allocator-extended copy"); edit(b, m); same(b, m, "copy edited"); alone(a, b, "after an extended copy"); sx_cover("extended copy"); break; }
    case 2: { S b(std::move(a)); owner(b, ia, w); same(b, m, "move"); same(a, none, "moved-from"); edit(b, m); a.push_back(mk(1)); alone(a, b, "after a move"); sx_cover("move construction"); break; }
    case 3: {
      u64 cp = st.copy + st.casgn;
      S b(std::move(a), A(ib)); owner(b, ib, w); owner(a, ia, w);
      same(b, m, "allocator-extended move loses the contents"); CHECK(st.copy + st.casgn == cp, "allocator-extended move copies elements");
      if (equal) { same_objects(b, m.n, "allocator-extended move with an equal allocator relocates elements"); same(a, none, "moved-from"); }
      edit(b, m); same(b, m, "moved sequence edited"); a.clear(); a.push_back(mk(1)); alone(a, b, "after an extended move"); sx_cover("extended move"); break; }
    case 4: case 5: {
      S b((A(ib))); Model old; small(b, old, "target", 3);
      if (kind == 4) { b = a; owner(b, PROP_COPY ? ia : ib, "copy assignment: the wrong allocator is reported"); same(a, m, "source of a copy assignment"); }
      else {
        u64 cp = st.copy + st.casgn, al = st.alloc_calls;
        b = std::move(a); owner(b, PROP_MOVE ? ia : ib, "move assignment: the wrong allocator is reported"); CHECK(st.copy + st.casgn == cp, "move assignment copies elements");
        if (PROP_MOVE || equal) { same_objects(b, m.n, "move assignment with a usable allocator relocates elements"); same(a, none, "moved-from"); CHECK(st.alloc_calls == al, "move assignment with a usable allocator allocates"); }
      }
      owner(a, ia, "the source's allocator changes");
      same(b, m, "assignment between allocators loses the contents"); edit(b, m); same(b, m, "assigned sequence edited");
      own_only(a); a.clear(); a.push_back(mk(1)); st.only_id = 0; alone(a, b, "after an assignment"); sx_cover("assignment"); break; }
    case 6: {
      S b((A(ib))); Model old; small(b, old, "target", 3);
      sx_assume(PROP_SWAP || equal);
      if (sx_bool("friend")) swap(a, b); else a.swap(b);
      owner(a, PROP_SWAP ? ib : ia, "swap: the wrong allocator is reported"); owner(b, PROP_SWAP ? ia : ib, "swap: the wrong allocator is reported");
      same(b, m, "swap loses the contents"); same(a, old, "swap loses the contents"); same_objects(b, m.n, "swap relocates elements");
      edit(a, old); edit(b, m); same(a, old, "swapped sequence edited"); same(b, m, "swapped sequence edited"); alone(a, b, "after a swap"); sx_cover("swap"); break; }
    case 7: { u64 x = sx_val("x"); T t = mk(x); S b(2, t, A(ib)); owner(b, ib, w); S c(3, A(ib)); owner(c, ib, w); S d(a.begin(), a.end(), A(ib)); owner(d, ib, w); same(d, m, "range construction"); S e({mk(1), mk(2)}, A(ib)); owner(e, ib, w); CHECK(b.size() == 2 && c.size() == 3 && e.size() == 2, "sizes"); sx_cover("constructors"); break; }
    case 8: { // splice between unequal allocators moves the elements one by one
      S b((A(ib))); Model old; small(b, old, "target", 3); u64 cp = st.copy + st.casgn; u64 p = sx_range("p", 0, old.n);
      b.splice(b.nth(p), a); p = sx_split(p); for (u64 i = 0; i < m.n; ++i) old.insert(p + i, m.a[i]);
      same(b, old, "splice between allocators"); same(a, none, "source of a splice"); CHECK(st.copy + st.casgn == cp, "splice copies elements"); owner(b, ib, w); owner(a, ia, w); alone(a, b, "after a splice"); sx_cover("splice"); break; }
    case 10: {  // whatever else is done, a sequence stays with its allocator
      S b((A(ib))); Model old; small(b, old, "target", 3); u64 n = old.n; T t = mk(5); T three[3] = {mk(7), mk(8), mk(9)};
      own_only(b); const char* w2 = "an edit changes the sequence's allocator";
      switch (sx_split(sx_range("edit", 0, 17))) {
        case 0: b = {mk(1), mk(2), mk(3), mk(4)}; n = 4; break;
        case 1: b.assign({mk(1), mk(2)}); n = 2; break;
        case 2: b.assign(5, t); n = 5; break;
        case 3: b.assign((T const*)three, (T const*)three + 3); n = 3; break;
        case 4: b.insert(b.begin(), {mk(1), mk(2)}); n += 2; break;
        case 5: b.insert(b.nth(n / 2), 4, t); n += 4; break;
        case 6: b.insert(b.end(), a.begin(), a.end()); n += m.n; break;
        case 7: b.resize(n + 4); n += 4; break;
        case 8: b.resize(n + 4, t); n += 4; break;
        case 9: b.resize(0); n = 0; b.push_back(t); ++n; break;
        case 10: b.clear(); n = 0; b.push_front(t); ++n; break;
        case 11: b.push_back(t); b.push_back(t); b.unique(); n = b.size(); CHECK(n > 0, w2); break;
        case 12: b.push_back(t); b.remove(t); n = b.size(); break;
        case 13: b.reverse(); break;
        case 14: sx_assume(n <= 2); b.sort(); break;
        case 15: sx_assume(n <= 2); b.sort(); { S c(A(3)); st.only_id = 0; c.push_back(t); own_only(b); b.merge(c); owner(c, 3, w2); } ++n; break;
        case 16: { u64 k = n / 2; st.only_id = 0; S c(b.begin(), b.end(), A(3)); own_only(b); b.splice(b.nth(k), c); owner(c, 3, w2); n += n; break; }
        default: b.erase(b.begin(), b.end()); n = 0; b.emplace_back(mk(1)); ++n; break;
      }
      st.only_id = 0; owner(b, ib, w2); CHECK(b.size() == n, w2); b.push_back(t); alone(a, b, w2); sx_cover("other edits"); break; }
    default: { // a chain: assign, move back, clear
      S b((A(ib))); b = a; S c(std::move(b)); b = std::move(c); a = b; same(a, m, "chained assignments lose the contents"); b.clear(); c.clear(); edit(a, m); same(a, m, "after a chain"); sx_cover("chain"); break; }
  }
  sx_trace(m.n);
  }
  CHECK(st.blocks == 0 && st.allocs == st.frees, "blocks are outstanding");
#if ELEM == 1
  CHECK(st.live == 0, "elements are outstanding");
#endif
}
#endif

// ---------------------------------------------------------------- S16
// the list relations, computed without branches
struct Rel { bool eq, lt, gt; };
static NOINLINE Rel relate(Model const& m, Model const& o) {
  Rel r = {m.n == o.n, false, false}; bool pre = true; u64 lim = m.n < o.n ? m.n : o.n;
  for (u64 i = 0; i < lim; ++i) {
    u64 x = ord(m.a[i]), y = ord(o.a[i]);
    r.lt = r.lt | (pre & (x < y)); r.gt = r.gt | (pre & (x > y)); pre = pre & (x == y); r.eq = r.eq & eqv(m.a[i], o.a[i]);
  }
  r.lt = r.lt | (pre & (m.n < o.n)); r.gt = r.gt | (pre & (m.n > o.n));
  return r;
}
RUN(h_compare) {
  S a, b; Model m, o;
  u64 n = sx_split(sx_range("n", 0, sx_param("n", 4))), k = sx_split(sx_range("k", 0, sx_param("n", 4))), sa = sx_split(sx_range("shape", 0, 2)), bits = sx_param("bits", 64);
  for (u64 i = 0; i < n; ++i) { u64 x = sx_sym("v", 0 + bits), p = sa == 0 ? i : sa == 1 ? 0 : i / 2; a.insert(a.nth(p), mk(x)); m.insert(p, x); }
  for (u64 i = 0; i < k; ++i) { u64 x = sx_sym("w", 0 + bits), p = sa == 1 ? i : i / 2; b.insert(b.nth(p), mk(x)); o.insert(p, x); }
  Rel rel = relate(m, o); bool eq = rel.eq, lt = rel.lt, gt = rel.gt;
  S const &x = a, &y = b;
  u64 which = sx_split(sx_range("which", 0, 5));
  switch (which) {
    case 0: CHECK((x == y) == eq, "== is not equality of size and elements"); CHECK((y == x) == eq, "== is not symmetric"); break;
    case 1: CHECK((x < y) == lt, "< is not lexicographic"); break;
    case 2: CHECK((x != y) == !eq, "!= is not the negation of =="); break;
    case 3: CHECK((x > y) == gt, "> is not lexicographic"); break;
    case 4: CHECK((x <= y) == !gt, "<= is not lexicographic"); break;
    default: CHECK((x >= y) == !lt, ">= is not lexicographic"); break;
  }
  if (sx_bool("self")) CHECK(x == x && !(x < x) && x <= x && x >= x && !(x > x) && !(x != x), "comparison with itself");
  same(a, m, "comparison changes its operand"); same(b, o, "comparison changes its operand");
  sx_trace(n); sx_trace(k); sx_cover("comparison checked");
}

// long sequences that agree except at one arbitrary place and in length
RUN(h_compare_long) {
  S a, b; Model m, o;
  u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 20))), less = sx_split(sx_range("less", 0, 2)), longer = sx_split(sx_range("longer", 0, 2)), p = n ? sx_split(sx_range("p", 0, n - 1)) : 0;
  for (u64 i = 0; i < n; ++i) { u64 x = i == p ? sx_val("v") : 100 + i % 3, y = i == p ? sx_val("w") : 100 + i % 3; a.push_back(mk(x)); m.push(x); if (i + less < n || less == 0) { b.push_back(mk(y)); o.push(y); } }
  for (u64 i = 0; i < longer; ++i) { b.push_back(mk(5)); o.push(5); }
  Rel rel = relate(m, o); bool eq = rel.eq, lt = rel.lt, gt = rel.gt;
  S const &x = a, &y = b;
  CHECK((x == y) == eq && (y == x) == eq && (x != y) == !eq, "== or != of long sequences");
  CHECK((x < y) == lt && (y > x) == lt && (x >= y) == !lt, "< of long sequences is not lexicographic");
  CHECK((x > y) == gt && (y < x) == gt && (x <= y) == !gt, "> of long sequences is not lexicographic");
  sx_trace(n); sx_cover("long comparison checked");
}
