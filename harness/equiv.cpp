// S22: the same history on sequences whose element type or allocator selects different code paths.
#include "common.h"
// an allocator with its own construct hook: every element object it constructs carries a mark
template <class T> struct HA {
  typedef T value_type;
  template <class U> struct rebind { typedef HA<U> other; };
  HA() noexcept {}
  template <class U> HA(HA<U> const&) noexcept {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) noexcept { ::operator delete(static_cast<void*>(p)); }
  template <class U, class... X> void construct(U* p, X&&... x) { ++st.hook_constructs; ::new ((void*)p) U(std::forward<X>(x)...); sx_gset((char*)p + 2, 1); }
  template <class U> void destroy(U* p) { ++st.hook_destroys; p->~U(); sx_gset((char*)p + 2, 0); }
};
template <class T, class U> bool operator==(HA<T> const&, HA<U> const&) { return true; }
template <class T, class U> bool operator!=(HA<T> const&, HA<U> const&) { return false; }
// only construct, no destroy
template <class T> struct HC {
  typedef T value_type;
  template <class U> struct rebind { typedef HC<U> other; };
  HC() noexcept {}
  template <class U> HC(HC<U> const&) noexcept {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) noexcept { ::operator delete(static_cast<void*>(p)); }
  template <class U, class... X> void construct(U* p, X&&... x) { ++st.hook_constructs; ::new ((void*)p) U(std::forward<X>(x)...); sx_gset((char*)p + 2, 1); }
};
template <class T, class U> bool operator==(HC<T> const&, HC<U> const&) { return true; }
template <class T, class U> bool operator!=(HC<T> const&, HC<U> const&) { return false; }
static inline bool operator==(HA<Elem> const&, int) { return true; }

template <class E, class Al> struct SQ { typedef boost::segmented_tree::seq<E, Al, SEGN * sizeof(E), 16 + 16 * BASEN> type; };
typedef SQ<Triv, std::allocator<Triv>>::type S0;   // bytewise construction and assignment
typedef SQ<Elem, std::allocator<Elem>>::type S1;   // element by element
typedef SQ<Triv, HC<Triv>>::type S2;               // trivial elements, but constructed through the hook
typedef SQ<Elem, HA<Elem>>::type S3;               // full hooks
typedef SQ<Pinned, std::allocator<Pinned>>::type S4;  // element by element, though nothing is to be done on destruction
struct Op { u64 kind, p, q, x, c; };
struct Bit0 { template <class E> bool operator()(E const& e) const { return (val_of(e) & 1) != 0; } };
struct RevLess { template <class E> bool operator()(E const& a, E const& b) const { return val_of(b) < val_of(a); } };
template <class E, class SS> static NOINLINE void apply(SS& s, Op const& o) {
  typedef typename SS::size_type Z; typedef Make<E> M;
  switch (o.kind) {
    case 0: { E e = M::of(o.x); s.insert(s.nth(o.p), e); break; }
    case 1: s.insert(s.nth(o.p), M::of(o.x)); break;
    case 2: s.erase(s.nth(o.p)); break;
    case 3: s.erase(s.nth(o.p), s.nth(o.q)); break;
    case 4: { E e = M::of(o.x); s.insert(s.nth(o.p), (Z)o.c, e); break; }
    case 5: s.insert(s.nth(o.p), {M::of(o.x), M::of(1), M::of(2)}); break;
    case 6: { E e = M::of(o.x); s.resize((Z)o.c, e); break; }
    case 7: { E e = M::of(o.x); s.assign((Z)o.c, e); break; }
    case 8: { SS t(s); t.insert(t.nth(o.p), M::of(o.x)); s = t; break; }
    case 9: { SS t(std::move(s)); s = std::move(t); break; }
    case 10: { SS t; t.push_back(M::of(o.x)); t.push_back(M::of(3)); s.splice(s.nth(o.p), t); break; }
    case 11: s.remove_if(Bit0()); break;
    case 12: s.reverse(); break;
    case 13: { E e = M::of(o.x); s.push_front(e); s.push_back(e); break; }
    case 14: s.clear(); s.emplace_back(M::of(o.x)); break;
    case 15: s.resize((Z)o.c); break;
    case 16: s.unique(); break;
    case 17: s.sort(RevLess()); break;
    case 18: { SS t; t.push_back(M::of(o.x)); t.push_back(M::of(3)); t.sort(RevLess()); s.sort(RevLess()); s.merge(t, RevLess()); break; }
    case 19: { SS t(s.begin(), s.end()); s.clear(); s.splice(s.begin(), std::move(t)); break; }
    case 20: s = {M::of(o.x), M::of(4), M::of(o.x)}; break;
    case 21: { SS t; for (u64 i = 0; i < 7; ++i) t.push_back(M::of(o.x + i)); s.splice(s.nth(o.p), t, t.nth(2), t.nth(5)); s.splice(s.begin(), t, t.nth(1)); break; }
    case 22: { E e = M::of(o.x); s.remove(e); break; }
    case 23: { SS t; for (u64 i = 0; i < 9; ++i) t.push_front(M::of(o.x)); t = s; t.emplace(t.nth(o.p), M::of(o.x)); s.swap(t); break; }
    default: { E v[3] = {M::of(o.x), M::of(5), M::of(6)}; s.assign(v, v + 3); s.insert(s.nth(1), v, v + 2); break; }
  }
}
static NOINLINE Op choose(u64 n, u64 kinds_lo, u64 kinds_hi) {
  Op o; o.kind = sx_split(sx_range("kind", kinds_lo, kinds_hi)); o.p = o.q = o.c = 0;
  o.x = sx_val("x");
  switch (o.kind) {
    case 17: case 18: sx_assume(n <= sx_param("sort", 3)); break;
    case 0: case 1: case 4: case 5: case 8: case 10: case 21: case 23: o.p = sx_range("p", 0, n); break;
    case 2: sx_assume(n > 0); o.p = sx_range("p", 0, n - 1); break;
    case 3: o.p = sx_range("p", 0, n); o.q = sx_range("q", 0, n); sx_assume(o.p <= o.q); break;
  }
  if (o.kind == 4) o.c = sx_split(sx_range("c", 0, 3));
  if (o.kind == 6 || o.kind == 15) o.c = sx_split(sx_range("c", 0, n + 3));
  if (o.kind == 7) o.c = sx_split(sx_range("c", 0, 4));
  return o;
}
template <class X, class Y> static NOINLINE void equal(X const& a, Y const& b, const char* w) {
  CHECK(a.size() == b.size(), w); CHECK(a.height() == b.height(), w);
  typename Y::const_iterator j = b.begin(); u64 k = 0;
  for (typename X::const_iterator i = a.begin(); i != a.end(); ++i, ++j, ++k) { CHECK(j != b.end(), w); CHECK(val_of(*i) == val_of(*j), w); }
  CHECK(j == b.end() && k == a.size(), w);
}
template <class X> static NOINLINE void marked(X const& a, const char* w) {
  for (typename X::const_iterator i = a.begin(); i != a.end(); ++i) CHECK(sx_gget((const char*)std::addressof(*i) + 2) == 1, w);
}
RUN(h_equiv) {
  {
  S0 a; S1 b; S2 c; S3 d; S4 e;
  u64 shape = sx_split(sx_range("shape", 0, 2)), n = sx_split(sx_range("n", sx_param("nmin", 0), sx_param("n", 6)));
  for (u64 i = 0; i < n; ++i) {
    Op o = {i % 2, shape == 0 ? i : shape == 1 ? 0 : i / 2, 0, sx_val("v"), 0};
    apply<Triv>(a, o); apply<Elem>(b, o); apply<Triv>(c, o); apply<Elem>(d, o); apply<Pinned>(e, o);
  }
  u64 steps = sx_param("steps", 1);
  for (u64 i = 0; i < steps; ++i) {
    Op o = choose(a.size(), sx_param("kind_lo", 0), sx_param("kind_hi", 24));
    apply<Triv>(a, o); apply<Elem>(b, o); apply<Triv>(c, o); apply<Elem>(d, o); apply<Pinned>(e, o);
    CHECK(a.size() == b.size() && b.size() == c.size() && c.size() == d.size() && d.size() == e.size(), "the same history gives different sizes");
  }
  equal(a, b, "bytewise and element-wise paths give different sequences");
  equal(a, c, "a construct hook changes the behaviour for trivially copyable elements");
  equal(a, e, "bytewise and element-wise paths give different sequences");
  equal(b, d, "allocator hooks change the behaviour");
  marked(c, "an element was not created through the allocator's construct hook");
  marked(d, "an element was not created through the allocator's construct hook");
  CHECK(st.live == b.size() + d.size(), "element objects leak");
  sx_trace(a.size()); sx_trace(a.height()); sx_cover("equivalence checked");
  }
  CHECK(st.live == 0, "element objects leak");
}
