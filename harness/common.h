// Shared by all harnesses: element types, allocators, shapes and the list model (the oracle).
//   -DSEGN=k   elements per full segment        -DBASEN=k  children per full node (>= 3)
//   -DELEM=6   struct ordered by a part of its value      7 struct also equal by a part of its value      8 trivial struct of 24 bytes
//   -DELEM=9   class with a trivial destructor that holds its own address
//   -DELEM=0   std::uint64_t    1 tracked class (lifetimes, moves, throwing copies)    2 trivially copyable struct
//         =3   unsigned char
//   -DALLOC=0  std::allocator   1 tracked allocator   2 tracked allocator with construct/destroy hooks
//         =3   allocator with a 32-bit size_type       4 allocator whose pointers are a class
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "sx.h"
#include <cstdint>
#include <stdexcept>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <boost/segmented_tree/seq.hpp>

#ifndef SEGN
#define SEGN 2
#endif
#ifndef BASEN
#define BASEN 3
#endif
#ifndef ELEM
#define ELEM 0
#endif
#ifndef ALLOC
#define ALLOC 0
#endif
#ifndef SEGEXTRA   // target sizes that are not multiples of the element size
#define SEGEXTRA 0
#endif
#ifndef BASEEXTRA
#define BASEEXTRA 0
#endif
#ifndef MAXN
#define MAXN 160
#endif
#define CHECK(c, m) sx_check((c), (m))
#if ELEM == 3
#define VALBITS 8
#else
#define VALBITS 64
#endif
#define sx_val(name) sx_sym((name), VALBITS)   // an arbitrary element value
#define NOINLINE __attribute__((noinline))

// ------------------------------------------------------------------ bookkeeping (all concrete counters)
struct Stats {
  u64 live, def, val, copy, move, casgn, masgn, dtor, cmp;  // element operations
  u64 ticks, throw_at;                                      // throwing operations so far / which one throws
  bool moves_count_as_throwing;
  u64 alloc_calls, alloc_fail_at, allocs, frees, blocks;    // allocator operations
  u64 seg_allocs, node_allocs, hook_constructs, hook_destroys, null_frees;
  u64 cmp_left;                                             // the cmp_left-th comparison of elements throws; 0: never
  u64 self_assign;                                          // element assignments whose source is their target
  u64 only_id, blocks_of[16];                               // identity every allocation must have now / blocks outstanding per identity
};
static Stats st;
static inline u64 elem_ops() { return st.def + st.val + st.copy + st.move + st.casgn + st.masgn + st.dtor; }
static inline void tick() {
  if (st.throw_at) { ++st.ticks; if (st.ticks == st.throw_at) throw 7; }
}
enum { RAW = 0, LIVE = 1, MOVED = 2 };
static const u64 MOVED_VALUE = 0x6d6f7665642d6672ull;

// ------------------------------------------------------------------ element types
#ifdef MAYTHROW  // moves are not declared noexcept (they do not throw all the same)
#define ELEM_NOEXCEPT
#else
#define ELEM_NOEXCEPT noexcept
#endif
struct Elem {
  u64 v;
#ifdef AMP
  Elem* operator&() { return nullptr; }
  Elem const* operator&() const { return nullptr; }
#endif
  void born() const { CHECK(sx_gget(this) == RAW, "an element is constructed on storage that already holds one"); sx_gset(this, LIVE); ++st.live; }
  void must_live(const char* m) const { CHECK(sx_gget(this) != RAW, m); }
  Elem() { tick(); born(); v = 0; ++st.def; }
  Elem(u64 x) { tick(); born(); v = x; ++st.val; }
  Elem(Elem const& o) { tick(); o.must_live("copied from storage that holds no live element"); born(); v = o.v; ++st.copy; }
  Elem(Elem&& o) ELEM_NOEXCEPT { o.must_live("moved from storage that holds no live element"); born(); v = o.v; o.v = MOVED_VALUE; sx_gset(std::addressof(o), MOVED); ++st.move; }
  Elem& operator=(Elem const& o) { tick(); must_live("assigned to storage that holds no live element"); o.must_live("copied from storage that holds no live element"); v = o.v; sx_gset(this, sx_gget(std::addressof(o))); ++st.casgn; if (this == std::addressof(o)) ++st.self_assign; return *this; }
  Elem& operator=(Elem&& o) ELEM_NOEXCEPT {
    must_live("assigned to storage that holds no live element"); o.must_live("moved from storage that holds no live element");
    ++st.masgn; if (this == std::addressof(o)) { ++st.self_assign; return *this; }
    v = o.v; sx_gset(this, sx_gget(std::addressof(o))); o.v = MOVED_VALUE; sx_gset(std::addressof(o), MOVED); return *this;
  }
  ~Elem() { must_live("destroyed storage that holds no live element"); sx_gset(this, RAW); --st.live; ++st.dtor; }
};
struct Triv { u64 v; };
struct Keyed {  // ordered by its key alone (equivalent elements need not be equal); its address operator is of no use
  u64 v;
  Keyed() = default;
  Keyed(u64 x) : v(x) {}
  Keyed* operator&() { return nullptr; }
  Keyed const* operator&() const { return nullptr; }
};
static inline u64 val_of(Keyed const& x) { return x.v; }
static inline bool operator==(Keyed const& a, Keyed const& b) { return a.v == b.v; }
static inline bool operator<(Keyed const& a, Keyed const& b) { return (a.v >> 8) < (b.v >> 8); }
static inline u64 val_of(u64 const& x) { return x; }
static inline u64 val_of(unsigned char const& x) { return x; }
static inline u64 val_of(Elem const& x) { return x.v; }
static inline u64 val_of(Triv const& x) { return x.v; }
template <class T> struct Make { static T of(u64 x) { return T(x); } };
template <> struct Make<Triv> { static Triv of(u64 x) { Triv t = {x}; return t; } };
template <> struct Make<Keyed> { static Keyed of(u64 x) { Keyed t = {x}; return t; } };
struct Loose { u64 v; };  // equality and order look at its key alone
static inline u64 val_of(Loose const& x) { return x.v; }
template <> struct Make<Loose> { static Loose of(u64 x) { Loose t = {x}; return t; } };
static inline bool operator==(Loose const& a, Loose const& b) { return (a.v >> 8) == (b.v >> 8); }
static inline bool operator<(Loose const& a, Loose const& b) { return (a.v >> 8) < (b.v >> 8); }
struct Bulky { u64 v, w; u64 x; };  // the other members follow from the first
static inline u64 val_of(Bulky const& e) { CHECK(((e.w == ~e.v) & (e.x == e.v + 99)) || (e.v == 0 && e.w == 0 && e.x == 0), "an element is copied or moved in part"); return e.v; }
template <> struct Make<Bulky> { static Bulky of(u64 x) { Bulky t = {x, ~x, x + 99}; return t; } };
static inline bool operator==(Bulky const& a, Bulky const& b) { return a.v == b.v; }
static inline bool operator<(Bulky const& a, Bulky const& b) { return a.v < b.v; }
struct Pinned {  // knows its own address, so it must be copied and assigned member by member; its destructor is trivial
  u64 v; Pinned const* self;
  Pinned() : v(0), self(this) {}
  Pinned(u64 x) : v(x), self(this) {}
  Pinned(Pinned const& o) : v(o.get()), self(this) {}
  Pinned(Pinned&& o) noexcept : v(o.get()), self(this) {}
  Pinned& operator=(Pinned const& o) { get(); v = o.get(); return *this; }
  Pinned& operator=(Pinned&& o) noexcept { get(); v = o.get(); return *this; }
  u64 get() const { CHECK(self == this, "an element that is not trivially copyable is relocated bytewise"); return v; }
};
static inline u64 val_of(Pinned const& x) { return x.get(); }
static inline bool operator==(Pinned const& a, Pinned const& b) { return a.get() == b.get(); }
static inline bool operator<(Pinned const& a, Pinned const& b) { return a.get() < b.get(); }
static inline void compared() { ++st.cmp; if (st.cmp_left && --st.cmp_left == 0) throw 9; }
static inline bool operator==(Elem const& a, Elem const& b) { compared(); return a.v == b.v; }
static inline bool operator!=(Elem const& a, Elem const& b) { return !(a == b); }
static inline bool operator<(Elem const& a, Elem const& b) { compared(); return a.v < b.v; }
static inline bool operator==(Triv const& a, Triv const& b) { return a.v == b.v; }
static inline bool operator<(Triv const& a, Triv const& b) { return a.v < b.v; }

// ------------------------------------------------------------------ allocators
#ifndef PROP_COPY
#define PROP_COPY 0
#endif
#ifndef PROP_MOVE
#define PROP_MOVE 0
#endif
#ifndef PROP_SWAP
#define PROP_SWAP 0
#endif
template <class T> struct TA {
  typedef T value_type;
  typedef std::integral_constant<bool, PROP_COPY> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, PROP_MOVE> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, PROP_SWAP> propagate_on_container_swap;
  typedef std::false_type is_always_equal;
  template <class U> struct rebind { typedef TA<U> other; };
  u64 id;
  TA() noexcept : id(1) {}
  explicit TA(u64 i) noexcept : id(i) {}
  template <class U> TA(TA<U> const& o) noexcept : id(o.id) {}
  u64 tag(std::size_t n) const { return (id << 40) | ((u64)sizeof(T) << 20) | (n + 1); }
  T* allocate(std::size_t n) {
    ++st.alloc_calls;
    if (st.alloc_fail_at && st.alloc_calls == st.alloc_fail_at) throw std::bad_alloc();
    CHECK(st.only_id == 0 || st.only_id == id, "a sequence allocates through an allocator that is not its own");
    void* p = ::operator new(n * sizeof(T));
    sx_gset((char*)p + 1, tag(n));
    ++st.blocks_of[id & 15]; ++st.allocs; ++st.blocks; if (n == 1 && sizeof(T) > 24) ++st.node_allocs; else ++st.seg_allocs;
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n) noexcept {
    if (!p) { ++st.null_frees; return; }
    u64 g = sx_gget((char*)p + 1);
    CHECK(g != 0, "a block is released that the allocator does not have outstanding");
    CHECK((g & 0xfffff) == (tag(n) & 0xfffff), "a block is released with another element count than it was allocated with");
    CHECK(((g >> 20) & 0xfffff) == sizeof(T), "a block is released through an allocator of another type");
    CHECK((g >> 40) == id, "a block is released through an allocator that is not equal to its own");
    sx_gset((char*)p + 1, 0);
    --st.blocks_of[id & 15]; ++st.frees; --st.blocks;
    ::operator delete(static_cast<void*>(p));
  }
#if ALLOC == 2
  template <class U, class... A> void construct(U* p, A&&... a) {
    ++st.hook_constructs;
    CHECK(sx_gget((char*)p + 2) == 0, "construct hook called on storage that already holds an element");
    ::new ((void*)p) U(std::forward<A>(a)...);
    sx_gset((char*)p + 2, 1);
  }
  template <class U> void destroy(U* p) {
    ++st.hook_destroys;
    CHECK(sx_gget((char*)p + 2) == 1, "destroy hook called on storage that holds no element made by the construct hook");
    sx_gset((char*)p + 2, 0); p->~U();
  }
#endif
  TA select_on_container_copy_construction() const { return TA(id + (u64)SELECT_ADD); }
  enum {
#ifdef SELECT_STEP
    SELECT_ADD = SELECT_STEP
#else
    SELECT_ADD = 0
#endif
  };
};
template <class T, class U> bool operator==(TA<T> const& a, TA<U> const& b) { return a.id == b.id; }
template <class T, class U> bool operator!=(TA<T> const& a, TA<U> const& b) { return a.id != b.id; }

// an allocator with a narrow size_type
#ifndef NARROW_SIZE
#define NARROW_SIZE std::uint32_t
#define NARROW_DIFF std::int32_t
#endif
template <class T> struct NA {
  typedef T value_type; typedef NARROW_SIZE size_type; typedef NARROW_DIFF difference_type;
  template <class U> struct rebind { typedef NA<U> other; };
  NA() noexcept {}
  template <class U> NA(NA<U> const&) noexcept {}
  T* allocate(size_type n) { ++st.alloc_calls; ++st.allocs; ++st.blocks; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, size_type) noexcept { ++st.frees; --st.blocks; ::operator delete(static_cast<void*>(p)); }
};
template <class T, class U> bool operator==(NA<T> const&, NA<U> const&) { return true; }
template <class T, class U> bool operator!=(NA<T> const&, NA<U> const&) { return false; }
// pointers that are a class and store the distance from themselves (copying their bytes breaks them)
#if ALLOC == 4
template <class T> struct RP {
  typedef T element_type; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T& reference; typedef T* pointer; typedef std::random_access_iterator_tag iterator_category;
  template <class U> using rebind = RP<U>;
  std::intptr_t d;
  T* get() const { return d == 1 ? nullptr : reinterpret_cast<T*>(reinterpret_cast<std::intptr_t>(this) + d); }
  void set(T* p) { d = p ? reinterpret_cast<std::intptr_t>(p) - reinterpret_cast<std::intptr_t>(this) : 1; }
  RP() { d = 1; }
  RP(std::nullptr_t) { d = 1; }
  RP(T* p) { set(p); }
  RP(RP const& o) { set(o.get()); }
  template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> RP(RP<U> const& o) { set(o.get()); }
  template <class U, class = typename std::enable_if<!std::is_convertible<U*, T*>::value && std::is_void<U>::value>::type, class = void> explicit RP(RP<U> const& o) { set(static_cast<T*>(o.get())); }
  RP& operator=(RP const& o) { set(o.get()); return *this; }
  static RP pointer_to(T& r) { return RP(std::addressof(r)); }
  T& operator*() const { return *get(); } T* operator->() const { return get(); } T& operator[](std::ptrdiff_t i) const { return get()[i]; }
  explicit operator bool() const { return d != 1; }
  RP& operator++() { set(get() + 1); return *this; } RP& operator--() { set(get() - 1); return *this; }
  RP operator++(int) { RP r(*this); ++*this; return r; } RP operator--(int) { RP r(*this); --*this; return r; }
  RP& operator+=(std::ptrdiff_t k) { set(get() + k); return *this; } RP& operator-=(std::ptrdiff_t k) { set(get() - k); return *this; }
  friend RP operator+(RP const& a, std::ptrdiff_t k) { return RP(a.get() + k); } friend RP operator+(std::ptrdiff_t k, RP const& a) { return RP(a.get() + k); }
  friend RP operator-(RP const& a, std::ptrdiff_t k) { return RP(a.get() - k); } friend std::ptrdiff_t operator-(RP const& a, RP const& b) { return a.get() - b.get(); }
};
template <> struct RP<void> {
  typedef void element_type; typedef std::ptrdiff_t difference_type;
  template <class U> using rebind = RP<U>;
  std::intptr_t d;
  void* get() const { return d == 1 ? nullptr : reinterpret_cast<void*>(reinterpret_cast<std::intptr_t>(this) + d); }
  void set(void* p) { d = p ? reinterpret_cast<std::intptr_t>(p) - reinterpret_cast<std::intptr_t>(this) : 1; }
  RP() { d = 1; } RP(std::nullptr_t) { d = 1; } RP(void* p) { set(p); } RP(RP const& o) { set(o.get()); }
  template <class U, class = typename std::enable_if<!std::is_const<U>::value && !std::is_void<U>::value>::type> RP(RP<U> const& o) { set(o.get()); }
  RP& operator=(RP const& o) { set(o.get()); return *this; }
  explicit operator bool() const { return d != 1; }
};
template <> struct RP<void const> {
  typedef void const element_type; typedef std::ptrdiff_t difference_type;
  template <class U> using rebind = RP<U>;
  std::intptr_t d;
  void const* get() const { return d == 1 ? nullptr : reinterpret_cast<void const*>(reinterpret_cast<std::intptr_t>(this) + d); }
  void set(void const* p) { d = p ? reinterpret_cast<std::intptr_t>(p) - reinterpret_cast<std::intptr_t>(this) : 1; }
  RP() { d = 1; } RP(std::nullptr_t) { d = 1; } RP(RP const& o) { set(o.get()); } template <class U> RP(RP<U> const& o) { set(o.get()); }
  RP& operator=(RP const& o) { set(o.get()); return *this; }
};
template <class T, class U> bool operator==(RP<T> const& a, RP<U> const& b) { return a.get() == b.get(); }
template <class T, class U> bool operator!=(RP<T> const& a, RP<U> const& b) { return a.get() != b.get(); }
template <class T, class U> bool operator<(RP<T> const& a, RP<U> const& b) { return a.get() < b.get(); }
template <class T, class U> bool operator>(RP<T> const& a, RP<U> const& b) { return a.get() > b.get(); }
template <class T, class U> bool operator<=(RP<T> const& a, RP<U> const& b) { return a.get() <= b.get(); }
template <class T, class U> bool operator>=(RP<T> const& a, RP<U> const& b) { return a.get() >= b.get(); }
template <class T, class U> bool operator==(RP<T> const& a, U* b) { return static_cast<void const*>(a.get()) == static_cast<void const*>(b); }
template <class T, class U> bool operator!=(RP<T> const& a, U* b) { return !(a == b); }
template <class T> bool operator==(RP<T> const& a, std::nullptr_t) { return a.get() == nullptr; }
template <class T> bool operator!=(RP<T> const& a, std::nullptr_t) { return a.get() != nullptr; }
template <class T> struct FA {
  typedef T value_type; typedef RP<T> pointer;
  template <class U> struct rebind { typedef FA<U> other; };
  FA() noexcept {}
  template <class U> FA(FA<U> const&) noexcept {}
  pointer allocate(std::size_t n) { ++st.alloc_calls; ++st.allocs; ++st.blocks; return pointer(static_cast<T*>(::operator new(n * sizeof(T)))); }
  void deallocate(pointer p, std::size_t) noexcept { ++st.frees; --st.blocks; ::operator delete(static_cast<void*>(p.get())); }
};
template <class T, class U> bool operator==(FA<T> const&, FA<U> const&) { return true; }
template <class T, class U> bool operator!=(FA<T> const&, FA<U> const&) { return false; }
#endif

#if ELEM == 0
typedef u64 T;
#elif ELEM == 1
typedef Elem T;
#elif ELEM == 6
typedef Keyed T;
#elif ELEM == 2
typedef Triv T;
#elif ELEM == 7
typedef Loose T;
#elif ELEM == 8
typedef Bulky T;
#elif ELEM == 9
typedef Pinned T;
#else
typedef unsigned char T;
#endif
#if ALLOC == 0
typedef std::allocator<T> A;
#elif ALLOC == 3
typedef NA<T> A;
#elif ALLOC == 4
typedef FA<T> A;
#else
typedef TA<T> A;
#endif
#ifdef DEFAULT_TARGETS
typedef boost::segmented_tree::seq<T, A> S;
#else
typedef boost::segmented_tree::seq<T, A, SEGN * sizeof(T) + SEGEXTRA, 16 + 16 * BASEN + BASEEXTRA> S;
#endif
typedef S::iterator It;
typedef S::const_iterator CIt;
static const u64 SEGMAX = SEGN, BASEMAX = BASEN;

#if ELEM == 6 || ELEM == 7
static inline u64 ord(u64 x) { return x >> 8; }   // what < looks at
#else
static inline u64 ord(u64 x) { return x; }
#endif
#if ELEM == 7
static inline bool eqv(u64 x, u64 y) { return (x >> 8) == (y >> 8); }   // what == looks at
#else
static inline bool eqv(u64 x, u64 y) { return x == y; }
#endif
static inline T mk(u64 x) { return Make<T>::of(x); }

// ------------------------------------------------------------------ the list model
struct Model {
  u64 n; u64 a[MAXN];
  Model() : n(0) {}
  Model(Model const& o) : n(o.n) { for (u64 i = 0; i < n; ++i) a[i] = o.a[i]; }
  Model& operator=(Model const& o) { n = o.n; for (u64 i = 0; i < n; ++i) a[i] = o.a[i]; return *this; }
  NOINLINE void insert(u64 p, u64 x) { for (u64 i = n; i > p; --i) a[i] = a[i - 1]; a[p] = x; ++n; }
  NOINLINE void erase(u64 p) { --n; for (u64 i = p; i < n; ++i) a[i] = a[i + 1]; }
  void erase(u64 p, u64 q) { u64 k = q - p; n -= k; for (u64 i = p; i < n; ++i) a[i] = a[i + k]; }
  void push(u64 x) { a[n++] = x; }
};

static NOINLINE void same(S const& s, Model const& m, const char* what) {
  CHECK(s.size() == m.n, what);
  CHECK(s.empty() == (m.n == 0), what);
  u64 k = 0;
  for (CIt i = s.begin(), e = s.end(); i != e; ++i) {
    CHECK(k < m.n, what);
    CHECK(val_of(*i) == m.a[k], what);
    ++k;
  }
  CHECK(k == m.n, what);
  for (CIt b = s.begin(), i = s.end(); i != b;) { --i; CHECK(k > 0, what); --k; CHECK(val_of(*i) == m.a[k], what); }
  CHECK(k == 0, what);
  for (k = 0; k < m.n; k += m.n > 60 ? 13 : 1) CHECK(val_of(s[k]) == m.a[k], what);
}
// weaker comparison used after the property under check is already decided elsewhere: size and random access
static NOINLINE void same_by_index(S const& s, Model const& m, const char* what) {
  CHECK(s.size() == m.n, what);
  for (u64 k = 0; k < m.n; ++k) CHECK(val_of(s[k]) == m.a[k], what);
}

// Uses a sequence up: a few insertions, then erasures at both ends and in the middle until nothing is left (or 40 times).  Damage done
// to the tree by an earlier operation shows here even where the contents were right straight after it.
static NOINLINE void use_up(S& s, Model& m, const char* what, u64 most = 40) {
  for (u64 k = 0; k < (most < 40 ? 2 : 3); ++k) {
    u64 p = k * m.n / 2, x = 200 + k; if (p > m.n) p = m.n;
    It r = s.insert(s.nth(p), mk(x)); m.insert(p, x);
    CHECK(s.index_of(r) == p, what); CHECK(val_of(*r) == x, what);
  }
  if (m.n <= 60 && most == 40) same(s, m, what);
  for (u64 k = 0; m.n; ++k) {
    if (k == most) { same_by_index(s, m, what); return; }
    u64 p = k % 3 == 0 ? m.n / 2 : k % 3 == 1 ? 0 : m.n - 1;
    It r = s.erase(s.nth(p)); m.erase(p);
    CHECK(s.index_of(r) == p, what);
    if (p < m.n) { CHECK(val_of(*r) == m.a[p], what); } else CHECK(r == s.end(), what);
    if (k % 4 == 3 && most == 40 && m.n <= 60) same_by_index(s, m, what);
  }
  CHECK(s.size() == 0 && s.height() == 0 && s.begin() == s.end(), what);
}

// ------------------------------------------------------------------ shapes
// Builds a sequence of n elements with arbitrary (symbolic) values by one of several histories; different
// histories leave differently filled trees.
enum { SHAPES = 6 };
static inline void add(S& s, Model& m, u64 p) {
  u64 x = sx_val("v");
  s.insert(s.nth(p), mk(x)); m.insert(p, x);
}
static inline void drop(S& s, Model& m, u64 p) { s.erase(s.nth(p)); m.erase(p); }
static NOINLINE void build(S& s, Model& m, u64 n, u64 shape) {
  switch (shape) {
    case 0: for (u64 i = 0; i < n; ++i) add(s, m, i); break;                       // append: left nodes half full
    case 1: for (u64 i = 0; i < n; ++i) add(s, m, 0); break;                       // prepend: right nodes half full
    case 2: for (u64 i = 0; i < n; ++i) add(s, m, i / 2); break;                   // middle: denser
    case 3: for (u64 i = 0; i < n; ++i) add(s, m, (i * 7 + 3) % (i + 1)); break;   // scattered
    case 4: {                                                                       // grow, then thin out
      u64 g = n + n / 2 + 1;
      for (u64 i = 0; i < g; ++i) add(s, m, (i * 5 + 1) % (i + 1));
      for (u64 k = 1; m.n > n; ++k) drop(s, m, (k * 3) % m.n);
      break; }
    case 5: {                                                                       // append, fill every segment, thin the rest
      u64 g = (n + 1) / 2;
      for (u64 i = 0; i < g; ++i) add(s, m, i);
      for (u64 i = 0; m.n < n; i += 2) add(s, m, i % (m.n + 1));
      break; }
  }
}
// Any filling: append, prepend or insert in the middle, then for every block (last to first) an arbitrary choice
// of how many of its elements go, as far as the block stays at least half full; at most `bits` blocks are touched.
static NOINLINE void thin(S& s, Model& m, u64 n, u64 shape, u64 blocks) {
  build(s, m, n, shape);
  u64 start[MAXN], len[MAXN], k = 0;
  for (It i = s.begin(); i != s.end(); i.move_after_segment()) { start[k] = s.index_of(i); len[k] = (u64)(i.end() - i.begin()); ++k; }
  u64 first = k > blocks ? sx_split(sx_range("first_block", 0, k - blocks)) : 0, last = first + blocks < k ? first + blocks : k;
  for (u64 b = last; b-- > first;) {
    u64 least = (SEGMAX + 1) / 2, most = len[b] > least ? len[b] - least : 0;
    u64 d = most ? sx_split(sx_range("thin", 0, most)) : 0;
    for (u64 i = 0; i < d; ++i) drop(s, m, start[b]);
  }
}
// ------------------------------------------------------------------ balance
static const u64 SEGMIN = (SEGMAX + 1) / 2, BASEMIN = (BASEMAX + 1) / 2;
static NOINLINE void balanced(S const& s) {
  u64 n = s.size(), h = s.height();
  CHECK((h == 0) == (n == 0), "the height is not 0 exactly for the empty sequence");
  if (h >= 2) { u64 least = 2 * SEGMIN; for (u64 k = 2; k < h; ++k) least *= BASEMIN; CHECK(n >= least, "the tree is higher than half-full nodes allow"); }
  if (h >= 1) { u64 most = SEGMAX; for (u64 k = 1; k < h; ++k) most *= BASEMAX; CHECK(n <= most, "the height is too small for the number of elements"); }
#if ALLOC != 0
  u64 blocks = 0;
  if (h == 1) blocks = 1;
  else if (h > 1) { u64 c = n / SEGMIN; blocks = c; for (u64 k = 2; k < h; ++k) { c = c / BASEMIN; blocks += c; } blocks += 1; }
  CHECK(st.blocks <= blocks, "more blocks are held than half-full nodes allow");
  if (n == 0) CHECK(st.blocks == 0, "an empty sequence holds a block");
#endif
}
#define RUN(name) extern "C" void name()
#endif
