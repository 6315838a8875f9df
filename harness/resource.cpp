// S08..S12, S21: balance, blocks, element lifetimes, failures, cost.  Needs ALLOC >= 1; S10/S12/S21 need ELEM=1.
#include "common.h"

static NOINLINE void pre(S& s, Model& m) {
  u64 shape = sx_split(sx_range("shape", sx_param("shape_lo", 0), sx_param("shape_hi", SHAPES - 1)));
  u64 n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 8)));
  build(s, m, n, shape);
}

// ---------------------------------------------------------------- S08
RUN(h_balance) {
  S s; Model m; pre(s, m); balanced(s);
  u64 steps = sx_param("steps", 2);
  for (u64 i = 0; i < steps; ++i) {
    if (m.n != 0 && sx_bool("erase")) { u64 p = sx_range("p", 0, m.n - 1); s.erase(s.nth(p)); --m.n; }
    else { u64 p = sx_range("p", 0, m.n), x = sx_val("x"); s.insert(s.nth(p), mk(x)); ++m.n; }
    CHECK(s.size() == m.n, "size"); balanced(s);
  }
  sx_trace(s.height()); sx_trace(s.size()); sx_cover("balance checked");
}
RUN(h_drain) {  // from every size down to empty by one of several orders; balanced at every step
  S s; Model m; pre(s, m);
  u64 order = sx_split(sx_range("order", 0, 4)), k = 0;
  while (m.n) {
    switch (order) {
      case 0: s.pop_back(); break;
      case 1: s.pop_front(); break;
      case 2: s.erase(s.nth(m.n / 2)); break;
      case 3: if (k & 1) s.pop_back(); else s.pop_front(); break;
      default: s.erase(s.nth((k * 7 + 3) % m.n)); break;
    }
    --m.n; ++k; CHECK(s.size() == m.n, "size"); balanced(s);
  }
  CHECK(s.height() == 0 && s.empty() && s.begin() == s.end(), "the drained sequence is not empty");
  sx_trace(k); sx_cover("drain checked");
}

// ---------------------------------------------------------------- one operation out of all that touch memory
#if ELEM != 2
struct Pred { u64 bit; bool operator()(T const& x) const { return (val_of(x) >> bit) & 1; } };
enum { OPS = 38 };
struct SameLow { bool operator()(T const& a, T const& b) const { return ((val_of(a) ^ val_of(b)) & 1) == 0; } };
static bool fresh = true;  // the models describe the sequences (first operation only)
static bool constructs(u64 kind) { return kind == 15 || kind == 24 || (kind >= 25 && kind <= 30); }
struct Vals { u64 v[4]; };
static NOINLINE void any_op(S& s, S& o, Model const& m, Model const& om, u64 kind) {
  typedef S::size_type Z;
  switch (kind) {
    case 0: s.insert(s.nth(sx_range("p", 0, m.n)), mk(sx_val("x"))); break;
    case 1: { T t = mk(sx_val("x")); s.insert(s.nth(sx_range("p", 0, m.n)), t); break; }
    case 2: s.emplace(s.nth(sx_range("p", 0, m.n)), sx_val("x")); break;
    case 3: { T t = mk(sx_val("x")); if (sx_bool("f")) s.push_front(t); else s.push_back(t); break; }
    case 4: if (m.n) s.erase(s.nth(sx_range("p", 0, m.n - 1))); break;
    case 5: { u64 p = sx_range("p", 0, m.n), q = sx_range("q", 0, m.n); sx_assume(p <= q); s.erase(s.nth(p), s.nth(q)); break; }
    case 6: { T t = mk(sx_val("x")); s.insert(s.nth(sx_range("p", 0, m.n)), (Z)sx_split(sx_range("c", 0, 4)), t); break; }
    case 7: s.insert(s.nth(sx_range("p", 0, m.n)), {mk(sx_val("x")), mk(2), mk(3)}); break;
    case 8: s.insert(s.nth(sx_range("p", 0, m.n)), o.cbegin(), o.cend()); break;
    case 9: { T t = mk(sx_val("x")); s.assign((Z)sx_split(sx_range("c", 0, 5)), t); break; }
    case 10: s.assign(o.cbegin(), o.cend()); break;
    case 11: s.resize((Z)sx_split(sx_range("c", 0, m.n + 4))); break;
    case 12: { T t = mk(sx_val("x")); s.resize((Z)sx_split(sx_range("c", 0, m.n + 4)), t); break; }
    case 13: s = o; break;
    case 14: s = std::move(o); break;
    case 15: { S t(o); s.swap(t); break; }
    case 16: { S t(std::move(s)); s = std::move(t); break; }
    case 17: s.splice(s.nth(sx_range("p", 0, m.n)), o); break;
    case 18: if (om.n) s.splice(s.nth(sx_range("p", 0, m.n)), o, o.nth(sx_range("q", 0, om.n - 1))); break;
    case 19: { u64 a = sx_range("a", 0, om.n), b = sx_range("b", 0, om.n); sx_assume(a <= b); s.splice(s.nth(sx_range("p", 0, m.n)), o, o.nth(a), o.nth(b)); break; }
    case 20: { Pred p = {0}; s.remove_if(p); break; }
    case 21: s.reverse(); break;
    case 22: s.clear(); break;
    case 23: s = {mk(sx_val("x")), mk(2)}; break;
    case 24: { S t(3, mk(sx_val("x"))); s.swap(t); break; }
    case 25: { S t((Z)sx_split(sx_range("c", 0, 4))); s.swap(t); break; }
    case 26: { S t(o.cbegin(), o.cend()); s.swap(t); break; }
    case 27: { S t({mk(sx_val("x")), mk(2), mk(3)}); s.swap(t); break; }
    case 28: { S t(o, o.get_allocator()); s.swap(t); break; }
    case 29: { S t((Z)sx_split(sx_range("c", 0, 4)), mk(sx_val("x")), s.get_allocator()); s.swap(t); break; }
    case 30: {
#if ALLOC == 1 || ALLOC == 2
      S t(o, A(9)); if (fresh) same(t, om, "an allocator-extended copy differs from its source");
#else
      S t(o); if (fresh) same(t, om, "a copy differs from its source");
#endif
      break; }
    case 31: {
#if ALLOC == 1 || ALLOC == 2
      S t(std::move(o), A(9));
#else
      S t(std::move(o));
#endif
      if (fresh) same(t, om, "an allocator-extended move loses elements"); break; }
    case 32: s.assign({mk(sx_val("x")), mk(2), mk(3)}); break;
    case 33: { SameLow f; s.unique(f); break; }
    case 34: { T t = mk(sx_val("x")); s.remove(t); break; }
    case 35: case 36: {  // assignment to a sequence with another allocator and elements of its own
#if ALLOC == 1 || ALLOC == 2
      S t(A(9));
#else
      S t;
#endif
      if (m.n) t.push_back(mk(3));
      if (kind == 35) t = std::move(o); else t = o;
      if (fresh) same(t, om, "assignment between sequences with unequal allocators gives other elements");
      break; }
    default: sx_assume(m.n + om.n <= 4); s.sort(); o.sort(); s.merge(o); break;
  }
}
static NOINLINE void both(S& s, Model& m, S& o, Model& om) {
  pre(s, m);
  u64 k = sx_split(sx_range("other", 0, sx_param("o", 3)));
  for (u64 i = 0; i < k; ++i) add(o, om, i / 2);
}

// ---------------------------------------------------------------- S09, S10
static NOINLINE void consistent(S& s, const char* w) {  // a valid sequence of whole elements, traversable both ways
  u64 n = s.size(), k = 0;
  for (It i = s.begin(); i != s.end(); ++i) {
    CHECK(k < n, w);
#if ELEM == 1
    CHECK(sx_gget(std::addressof(*i)) != RAW, w);
#endif
    CHECK(std::addressof(*i) == std::addressof(s[k]), w);
    ++k;
  }
  CHECK(k == n, w);
  for (It i = s.end(); i != s.begin();) { --i; --k; CHECK(i.current() == std::addressof(s[k]), w); }
  CHECK(k == 0, w);
  CHECK((s.height() == 0) == (n == 0) && s.empty() == (n == 0), w);
}
static NOINLINE void nothing_left() {
#if ELEM == 1
  CHECK(st.live == 0, "element objects outlive the sequences (or were destroyed twice)");
#endif
#if ALLOC != 0
  CHECK(st.blocks == 0 && st.allocs == st.frees, "blocks are still outstanding after destruction");
  CHECK(st.null_frees == 0, "a block that was never allocated is released");
#endif
}
RUN(h_life) {
  {
    S s, o; Model m, om; both(s, m, o, om);
    u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", OPS - 1)));
    u64 steps = sx_param("steps", 1);
    any_op(s, o, m, om, kind);
    if (kind == 22) CHECK(s.empty(), "clear leaves elements");
#if ELEM == 1
    CHECK(st.live == s.size() + o.size(), "live element objects differ from the sizes");
#endif
    consistent(s, "the sequence is not a valid run of live elements after the operation");
    consistent(o, "the other sequence is not a valid run of live elements after the operation");
#if ALLOC != 0
    if (s.empty() && o.empty()) CHECK(st.blocks == 0, "empty sequences hold blocks");
    u64 before = st.blocks;
    if (o.empty() && before) { S::size_type h = s.height(); CHECK(h > 0, "a block is held by an empty sequence"); }
#endif
    if (steps > 1) { fresh = false; m.n = s.size(); om.n = o.size(); any_op(s, o, m, om, sx_split(sx_range("kind2", 0, OPS - 1)));
#if ELEM == 1
      CHECK(st.live == s.size() + o.size(), "live element objects differ from the sizes");
#endif
      consistent(s, "the sequence is not a valid run of live elements after the operation"); }
    s.clear();
#if ALLOC != 0
    if (o.empty()) CHECK(st.blocks == 0, "a cleared sequence holds blocks");
    CHECK(st.null_frees == 0, "a block that was never allocated is released");
#endif
    if (sx_bool("reuse")) { s.push_back(mk(1)); s.push_front(mk(2)); CHECK(s.size() == 2 && val_of(s[0]) == 2 && val_of(s[1]) == 1, "a cleared sequence cannot be reused"); }
    sx_trace(s.size()); sx_trace(o.size());
  }
  nothing_left();
  sx_cover("lifetimes checked");
}

// ---------------------------------------------------------------- S11, S12: the k-th allocation / throwing operation fails
static NOINLINE void arm(u64 mode, u64 k) { if (mode) st.throw_at = st.ticks + k; else st.alloc_fail_at = st.alloc_calls + k; }
static NOINLINE void disarm() { st.throw_at = 0; st.alloc_fail_at = 0; }
static NOINLINE void strong_op(S& s, Model& m, u64 kind, u64 mode, u64 k, bool& threw, u64& p, u64 x) {
  CIt pos = s.nth(p);
#if ELEM == 1
  st.ticks = 0;
#endif
  try {
    switch (kind) {
      case 0: { T t = mk(x); arm(mode, k); s.insert(pos, t); break; }
      case 1: { T t = mk(x); arm(mode, k); s.insert(pos, std::move(t)); break; }
      case 2: arm(mode, k); s.emplace(pos, x); break;
      case 3: { T t = mk(x); arm(mode, k); s.push_back(t); break; }
      case 4: { T t = mk(x); arm(mode, k); s.push_front(t); break; }
      case 5: arm(mode, k); s.emplace_back(x); break;
      case 6: arm(mode, k); s.emplace_front(x); break;
      default: arm(mode, k); s.resize((S::size_type)(m.n + sx_param("grow", 4))); break;
    }
  } catch (...) { threw = true; }
  disarm();
}
static NOINLINE void strong(u64 mode) {
  {
    S s; Model m; pre(s, m);
    u64 kind = sx_split(sx_range("kind", 0, 7)), k = sx_split(sx_range("fail", 1, sx_param("k", 6)));
    u64 p = kind == 3 || kind == 5 || kind == 7 ? m.n : kind == 4 || kind == 6 ? 0 : sx_range("p", 0, m.n), x = sx_val("x");
    u64 blocks = st.blocks, live = st.live, h = s.height();
    bool threw = false;
    strong_op(s, m, kind, mode, k, threw, p, x);
    p = sx_split(p);
    if (threw) {
      sx_cover("failure injected");
      same(s, m, "a failed single edit (or resize) changed the contents");
      if (kind != 7) {
        CHECK(s.height() == h, "a failed single edit changed the height");
        CHECK(st.blocks == blocks, "a failed single edit leaks or loses a block");
      }
      CHECK(st.live == live, "a failed single edit leaks or loses an element object");
    } else {
      if (kind == 7) for (u64 i = 0; i < sx_param("grow", 4); ++i) m.insert(m.n, 0); else m.insert(p, x);
      same(s, m, "an edit that succeeded under failure injection has the wrong result");
      sx_cover("no failure");
    }
    consistent(s, "after a failed single edit the sequence is not valid");
    // and it keeps working
    if (sx_bool("continue")) { u64 y = sx_val("y"); s.insert(s.nth(p), mk(y)); m.insert(p, y); same(s, m, "the sequence does not work after a failed edit"); if (threw) use_up(s, m, "the sequence does not work after a failed edit", 5); }
    sx_trace(s.size());
  }
  nothing_left();
}
RUN(h_strong_alloc) { strong(0); }
RUN(h_strong_throw) { strong(1); }

static NOINLINE void contents(S& s, Model& m) { m.n = 0; for (It i = s.begin(); i != s.end(); ++i) m.push(val_of(*i)); }
static NOINLINE void basic(u64 mode) {
  {
    S s, o; Model m, om; both(s, m, o, om);
    u64 kind = sx_split(sx_range("kind", sx_param("kind_lo", 0), sx_param("kind_hi", OPS - 1))), k = sx_split(sx_range("fail", 1, sx_param("k", 6)));
    u64 oblocks = st.blocks; bool threw = false;
#if ELEM == 1
    st.ticks = 0;
#endif
    arm(mode, k);
    try { any_op(s, o, m, om, kind); } catch (...) { threw = true; }
    disarm();
    if (threw) sx_cover("failure injected");
    consistent(s, "after a failed operation the sequence is not a valid run of whole elements");
    consistent(o, "after a failed operation the other sequence is not a valid run of whole elements");
#if ELEM == 1
    CHECK(st.live == s.size() + o.size(), "a failed operation leaks or destroys element objects");
#endif
    if (threw && (kind == 8 || kind == 10 || kind == 13 || kind == 15 || kind == 26 || kind == 28 || kind == 30 || kind == 36)) same(o, om, "a failed copying operation changed its source");
    if (threw && constructs(kind)) { same(s, m, "a failed construction changed the sequence"); CHECK(st.blocks == oblocks, "a failed construction leaks a block"); }
    if (sx_bool("continue")) {
      const char* w = "the sequence does not work after a failed operation";
      u64 n = s.size(); u64 y = sx_val("y"); s.insert(s.nth(n / 2), mk(y)); CHECK(s.size() == n + 1 && val_of(s[n / 2]) == y, w);
      if (threw) { Model now; contents(s, now); use_up(s, now, w, 5); if (!o.empty()) { Model onow; contents(o, onow); use_up(o, onow, w, 5); } }
    }
    sx_trace(s.size()); sx_trace(o.size());
  }
  nothing_left();
}
RUN(h_basic_alloc) { basic(0); }
RUN(h_basic_throw) { basic(1); }

// ---------------------------------------------------------------- S21
RUN(h_cost) {
  S s; Model m; pre(s, m); S const& c = s;
  u64 h = s.height(), ops = elem_ops(), a = st.allocs, f = st.frees, n = m.n;
  u64 lim = 3 * SEGMAX + 10;
  u64 what = sx_split(sx_range("what", 0, sx_param("what_hi", 3)));
  if (what == 0) {
    u64 p = sx_range("p", 0, n); T t = mk(sx_val("x")); It i = s.nth(p); ops = elem_ops();
    if (sx_bool("copy")) s.insert(i, t); else s.insert(i, std::move(t));
    CHECK(st.copy + st.casgn <= 1, "one insertion copies more than the inserted element");
    CHECK(elem_ops() - ops <= 2 * lim, "one insertion performs more element operations than a small multiple of the segment capacity");
    CHECK(st.allocs - a <= h + 1, "one insertion allocates more than one block per level and a root");
    CHECK(st.frees == f, "one insertion releases blocks");
    CHECK(s.height() <= h + 1, "one insertion raises the height by more than one");
    sx_cover("insertion cost");
  } else if (what == 1) {
    sx_assume(n > 0);
    u64 p = sx_range("p", 0, n - 1); s.erase(s.nth(p));
    CHECK(elem_ops() - ops <= 2 * lim, "one erasure performs more element operations than a small multiple of the segment capacity");
    CHECK(st.copy == 0 && st.casgn == 0, "one erasure copies elements");
    CHECK(st.allocs == a, "one erasure allocates");
    CHECK(st.frees - f <= h, "one erasure releases more than one block per level");
    sx_cover("erasure cost");
  } else if (what == 2) {
    u64 cmp = st.cmp, calls = st.alloc_calls;
    u64 i = sx_range("i", 0, n), j = sx_range("j", 0, n);
    It x = s.nth(i), y = c.nth(j) == c.end() ? s.end() : s.nth(j); x += y - x; CHECK(x == y, "moved iterator");
    if (n) { s.front(); s.back(); s[0]; s.at(n - 1); c[n - 1]; c.penultimate(); }
    u64 k = 0; for (CIt q = c.begin(); q != c.end(); ++q) ++k; for (It q = s.end(); q != s.begin(); --q) --k; CHECK(k == 0, "traversal");
    for (S::const_reverse_iterator q = c.rbegin(); q != c.rend(); ++q) ++k; CHECK(k == n, "reverse traversal");
    if (n) { u64 b = 0; for (It q = s.begin(); q != s.end(); q.move_after_segment()) ++b; CHECK(b > 0, "segment traversal"); }
    CHECK(elem_ops() == ops && st.cmp == cmp, "lookup or iteration performs element operations");
    CHECK(st.alloc_calls == calls && st.frees == f, "lookup or iteration allocates or releases");
    sx_cover("lookup cost");
  } else {
    u64 d = st.dtor; bool clear = sx_bool("clear");
    u64 other = st.def + st.val + st.copy + st.move + st.casgn + st.masgn;
    if (clear) s.clear(); else s.~S();
    CHECK(st.dtor - d == n, "bulk release does not destroy every element exactly once");
    CHECK(st.def + st.val + st.copy + st.move + st.casgn + st.masgn == other, "bulk release copies or moves elements");
    CHECK(st.allocs == a && st.blocks == 0, "bulk release allocates or leaves blocks");
    if (!clear) new (&s) S();
    sx_cover("release cost");
  }
  sx_trace(s.size());
}
#endif
