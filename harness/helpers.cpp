// S25: workload helpers in /repo/common.  The generators are stubs whose outputs are arbitrary.
#include "common.h"
#include "common.hpp"
#include "iterator.hpp"
#include "single.hpp"
#include "range.hpp"

// ---------------------------------------------------------------- bounded_rand
// the first output is arbitrary, the later ones are safe for every reasonable rejection rule
template <class W, W LO, W HI> struct Rng {
  typedef W result_type;
  W first, second; u64 calls;
  static constexpr W min() { return LO; }
  static constexpr W max() { return HI; }
  W operator()() { ++calls; return calls == 1 ? first : second; }
};
// does the helper reject output a?  and what does it give for it when it does not?
template <class W, W LO, W HI, class R> static NOINLINE bool rejected(W a, R bound, W safe, R& res) {
  Rng<W, LO, HI> g; g.first = a; g.calls = 0; g.second = safe;
  res = bounded_rand(g, bound);
  CHECK(g.calls <= 2, "the bounded random helper rejects an output no rule needs to reject");
  return g.calls == 2;
}
template <class W, W LO, W HI, class R> static NOINLINE void bounded(R ub, u64 wbits) {
  W a = (W)sx_sym("a", (int)wbits), b = (W)sx_sym("b", (int)wbits);
  sx_assume((a >= LO) & (a <= HI) & (b >= LO) & (b <= HI));
  // number of outputs mod ub, without overflow
  R top = (R)(W)(HI - LO), rest = (R)((R)(top % ub) + 1); if (rest == ub) rest = 0;
  W safe = (W)(LO + (W)(top / 2));   // never in the rejected part: fewer than ub <= half of the outputs are rejected, at one end
  R ra = 0, rb = 0, sa = (R)(W)(a - LO), sb = (R)(W)(b - LO);
  bool ja = rejected<W, LO, HI, R>(a, ub, safe, ra), jb = rejected<W, LO, HI, R>(b, ub, safe, rb);
  CHECK(ra < ub, "the bounded random helper returns a value that is not below its bound");
  CHECK(rb < ub, "the bounded random helper returns a value that is not below its bound");
  // exactly (number of outputs) mod ub outputs are rejected, at the low or at the high end
  bool low = sa < rest, high = sb > (R)(top - rest);
  CHECK((ja == low) | (jb == high), "the accepted outputs do not divide evenly over the results");
  // and the accepted ones are spread evenly
  CHECK(ja | jb | (ra == sa % ub) | (rb == (R)(sb - rest) % ub), "the accepted outputs are not spread evenly");
  sx_trace((u64)ra);
  sx_cover("bounded checked");
}
static NOINLINE u64 pick(u64 K, u64 w) {
  u64 t = sx_split(sx_range("ub", 1, K + 3 * (w - 1)));
  if (t <= K) return t;
  t -= K + 1; u64 v = (1ull << (1 + t / 3)) + t % 3 - 1;
  sx_assume(v <= 1ull << (w - 1)); return v;
}
RUN(h_bounded) {
  u64 kind = sx_split(sx_range("width", sx_param("lo", 0), sx_param("hi", 5)));
  u64 K = sx_param("k", 64);
  switch (kind) {
    case 0: { u64 ub = sx_range("ub", 1, 128); bounded<std::uint8_t, 0, 255, std::uint8_t>((std::uint8_t)ub, 8); break; }
    case 1: bounded<std::uint32_t, 0, 0xffffffffu, std::uint32_t>((std::uint32_t)pick(K, 32), 32); break;
    case 2: bounded<std::uint32_t, 0, 0xffffffffu, std::uint64_t>(pick(K, 32), 32); break;
    case 3: bounded<std::uint64_t, 0, ~0ull, std::uint64_t>(pick(K, 64), 64); break;
    case 4: bounded<std::uint16_t, 7, 1006, std::uint32_t>((std::uint32_t)sx_split(sx_range("ub", 1, K)), 16); break;   // 1000 outputs, not from 0
    default: bounded<std::uint32_t, 1, 0x7ffffffeu, std::uint64_t>(pick(K, 31), 32); break;                             // minstd-like
  }
}
template <class W, class R> struct Twice {  // arbitrary outputs, at most two asked for
  typedef W result_type; u64 calls; int bits;
  static constexpr W min() { return 0; }
  static constexpr W max() { return (W)~(W)0; }
  W operator()() { sx_assume(++calls <= 2); return (W)sx_sym("a", bits); }
};
RUN(h_bounded_any) {  // every bound of the given width, up to two outputs in a row of a 16-bit generator
  u64 r = 0, ub = sx_sym("ub", (int)sx_param("bits", 12)); sx_assume(ub != 0);
  if (sx_bool("wide")) { Twice<std::uint16_t, std::uint32_t> g = {0, 16}; r = bounded_rand(g, (std::uint32_t)ub); }
  else { Twice<std::uint8_t, std::uint16_t> g = {0, 8}; sx_assume(ub <= 255); r = bounded_rand(g, (std::uint16_t)ub); }
  CHECK(r < ub, "the bounded random helper returns a value that is not below its bound");
  sx_trace(r); sx_cover("any bound checked");
}

// ---------------------------------------------------------------- accumulate_*
template <class C> static NOINLINE void sums(C const& s, Model const& m, u64 d, u64 kind) {
  u64 want = 0, got = 0, n = m.n;
  switch (kind) {
    case 0: for (u64 i = 0; i < n; ++i) want += m.a[i]; got = accumulate_forward(s); break;
    case 1: for (u64 i = 0; i < n; ++i) want += m.a[i]; got = accumulate_backward(s); break;
    case 2: for (u64 i = 0; i + d <= n; i += d) want += m.a[i]; got = accumulate_forward_by(s, d); break;
    default: for (u64 i = n; i >= d; i -= d) want += m.a[i - d]; got = accumulate_backward_by(s, d); break;
  }
  CHECK(got == want, "an accumulate helper visits other elements than its stride defines");
}
RUN(h_accumulate) {
  S s; Model m;
  u64 shape = sx_split(sx_range("shape", 0, SHAPES - 1)), n = sx_split(sx_range("n", 0, sx_param("n", 9))), d = sx_split(sx_range("d", 1, sx_param("d", 5))), kind = sx_split(sx_range("kind", 0, 3));
  build(s, m, n, shape);
  if (sx_split(sx_range("vector", 0, 1))) { std::vector<u64> c; for (u64 i = 0; i < n; ++i) c.push_back(m.a[i]); sums(c, m, d, kind); }
  else sums(s, m, d, kind);
  same_by_index(s, m, "an accumulate helper changed the container");
  sx_trace(n); sx_cover("accumulate checked");
}

// ---------------------------------------------------------------- drivers
template <class C> static NOINLINE void equals(C const& s, Model const& m, const char* w) {
  CHECK(s.size() == m.n, w);
  u64 k = 0; for (typename C::const_iterator i = s.begin(); i != s.end(); ++i, ++k) { CHECK(k < m.n, w); CHECK(*i == m.a[k], w); }
  CHECK(k == m.n, w);
}
template <class C> static NOINLINE void drive(C& s, bool range, insertion_data<u64> const& data, Model const& m, Model const& one) {
  if (range) insert_range(s, data); else insert_single(s, data);
  equals(s, m, "the insertion driver gives another result than the recorded edits");
  if (range) erase_range(s, data); else erase_single(s, data);
  equals(s, one, "the erasure driver does not undo the recorded edits in reverse");
}
RUN(h_drivers) {
  Model m, one;
  bool range = sx_split(sx_range("range", 0, 1)) != 0, vec = sx_split(sx_range("vector", 0, 1)) != 0;
  u64 count = sx_split(sx_range("count", 1, sx_param("n", 5))), size = range ? sx_split(sx_range("size", 1, sx_param("size", 3))) : 1;
  insertion_data<u64> data;
  for (u64 i = 0; i < count; ++i) data.indexes.push_back((std::size_t)sx_range("p", 0, i * size));
  for (u64 i = 0; i < count * size; ++i) data.ordered.push_back(sx_val("v"));
  for (u64 i = 0; i < count; ++i) { u64 p = sx_split(data.indexes[i]); for (u64 j = 0; j < size; ++j) m.insert(p + j, data.ordered[i * size + j]); }
  one.push(data.ordered[0]);
  if (vec) { std::vector<u64> c; drive(c, range, data, m, one); } else { S s; drive(s, range, data, m, one); }
  sx_trace(count); sx_cover("drivers checked");
}
RUN(h_data) {  // whatever the generator returns, the generated edit lists are valid
  bool range = sx_split(sx_range("range", 0, 1)) != 0;
  u64 count = sx_split(sx_range("count", 1, sx_param("n", 4))), size = range ? sx_split(sx_range("size", 1, 2)) : 1;
  insertion_data<u64> data = range ? make_insertion_data_range<u64>(count, size, 1) : make_insertion_data_single<u64>(count, 1);
  CHECK(data.indexes.size() == count && data.ordered.size() == count * size, "generated edit list has the wrong length");
  for (u64 i = 0; i < count; ++i) CHECK(data.indexes[i] <= i * size, "a generated edit position is out of range");
  sx_trace(count); sx_cover("data checked");
}
