// sx: a symbolic executor for LLVM IR (bitcode), deciding branches and assertions with Z3.
//
//   sx FILE.bc --entry FN [--param k=v]... [--max-time S] [--max-mem MB] [--max-viol N]
//      [--out FILE.json] [--smt-dir DIR]
//
// * SSA values are 64-bit words or bit-vector expressions; memory is a set of disjoint objects with
//   byte-precise content (concrete / symbolic / undefined), so every access is bounds-, lifetime- and
//   initialisation-checked.
// * A branch on a symbolic condition asks the solver for both sides; both satisfiable sides are
//   explored (depth first).  A symbolic address, size or sx_split value is split over all its
//   solver-feasible values.  Loops run until they end; there is no unrolling bound.
// * sx_check(c) asks the solver whether "path condition and not c" is satisfiable.
#include <unistd.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint8_t u8;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

// ---------------------------------------------------------------- expressions
enum EOp : u8 {
  E_CONST, E_SYM, E_UNDEF, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL,
  E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE
};
typedef std::vector<u32> SymSet;
struct Expr {
  EOp op;
  u8 w;
  bool undef;
  u32 id;
  u64 k;  // constant value / symbol number / extract offset
  Expr *a, *b, *c;
  SymSet const* syms;
  Z3_ast zbv, zbool;
  u64 evalGen, evalVal;
};
struct ExprKey {
  EOp op; u8 w; u64 k; Expr *a, *b, *c;
  bool operator==(ExprKey const& o) const {
    return op == o.op && w == o.w && k == o.k && a == o.a && b == o.b && c == o.c;
  }
};
struct ExprHash {
  size_t operator()(ExprKey const& k) const {
    u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(k.k); mix((u64)k.a); mix((u64)k.b); mix((u64)k.c);
    return h;
  }
};
static std::unordered_map<ExprKey, Expr*, ExprHash> g_exprs;
static u32 g_nexpr = 0;
static u32 g_undefs = 0;
static SymSet const g_nosyms;

static SymSet const* unionSyms(SymSet const* x, SymSet const* y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
  if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
  auto* r = new SymSet;
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(*r));
  return r;
}
static Expr* raw(EOp op, u8 w, u64 k = 0, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr) {
  ExprKey key{op, w, k, a, b, c};
  auto it = g_exprs.find(key);
  if (it != g_exprs.end()) return it->second;
  auto* e = new Expr{op, w, false, g_nexpr++, k, a, b, c, &g_nosyms, nullptr, nullptr, 0, 0};
  if (op == E_UNDEF) e->undef = true;
  if (op == E_SYM) e->syms = new SymSet{(u32)k};
  for (Expr* ch : {a, b, c})
    if (ch) { e->undef |= ch->undef; e->syms = unionSyms(e->syms, ch->syms); }
  g_exprs.emplace(key, e);
  return e;
}
static Expr* mkConst(u64 v, u8 w) { return raw(E_CONST, w, v & maskw(w)); }
static Expr* mkUndef(u8 w) { return raw(E_UNDEF, w, g_undefs++); }
static inline bool isC(Expr* e) { return e->op == E_CONST; }
static Expr* mkExtract(Expr* e, unsigned off, u8 w);
static Expr* mkZext(Expr* e, u8 w);
static Expr* mkConcat(Expr* hi, Expr* lo);
static Expr* mkSext(Expr* e, u8 w);
static Expr* mkIte(Expr* c, Expr* a, Expr* b);
static Expr* mkBin(EOp op, Expr* a, Expr* b);
static Expr* mkNot(Expr* e);

static u64 foldBin(EOp op, u64 x, u64 y, unsigned w, bool& ok) {
  ok = true;
  switch (op) {
    case E_ADD: return (x + y) & maskw(w);
    case E_MUL: return (x * y) & maskw(w);
    case E_UDIV: if (!y) { ok = false; return 0; } return x / y;
    case E_UREM: if (!y) { ok = false; return 0; } return x % y;
    case E_SDIV: if (!y || (sextw(y, w) == -1 && sextw(x, w) == sextw(1ull << (w - 1), w))) { ok = false; return 0; }
      return (u64)(sextw(x, w) / sextw(y, w)) & maskw(w);
    case E_SREM: if (!y) { ok = false; return 0; } if (sextw(y, w) == -1) return 0;
      return (u64)(sextw(x, w) % sextw(y, w)) & maskw(w);
    case E_AND: return x & y;
    case E_OR: return x | y;
    case E_XOR: return x ^ y;
    case E_SHL: return y >= w ? 0 : (x << y) & maskw(w);
    case E_LSHR: return y >= w ? 0 : x >> y;
    case E_ASHR: return (u64)(sextw(x, w) >> (y >= w ? w - 1 : y)) & maskw(w);
    case E_EQ: return x == y;
    case E_ULT: return x < y;
    case E_ULE: return x <= y;
    case E_SLT: return sextw(x, w) < sextw(y, w);
    case E_SLE: return sextw(x, w) <= sextw(y, w);
    default: ok = false; return 0;
  }
}
static bool isCmp(EOp op) { return op >= E_EQ && op <= E_SLE; }
static u64 maxVal(Expr* e) {  // an upper bound (unsigned)
  if (isC(e)) return e->k;
  if (e->op == E_ZEXT) return maxVal(e->a);
  if (e->op == E_AND && isC(e->b)) return e->b->k;
  if (e->op == E_ITE) return std::max(maxVal(e->b), maxVal(e->c));
  if (e->op == E_ADD && isC(e->b)) {
    u64 m = maxVal(e->a);
    if (m < (1ull << 62) && e->b->k < (1ull << 62) && m + e->b->k <= maskw(e->w)) return m + e->b->k;
  } else if (e->op == E_ADD) {
    u64 m = maxVal(e->a), n = maxVal(e->b);
    if (m < (1ull << 62) && n < (1ull << 62) && m + n <= maskw(e->w)) return m + n;
  } else if (e->op == E_MUL && isC(e->b)) {
    unsigned __int128 m = (unsigned __int128)maxVal(e->a) * e->b->k;
    if (m <= maskw(e->w)) return (u64)m;
  }
  return maskw(e->w);
}
static Expr* mkNeg(Expr* e) {
  return mkBin(E_ADD, mkBin(E_XOR, e, mkConst(~0ull, e->w)), mkConst(1, e->w));
}
// Linear combinations: sums are kept as  c1*t1 + ... + ck*tk + c  with distinct terms ordered by id.
struct Lin { std::vector<std::pair<Expr*, u64>> t; u64 c = 0; };
static void toLin(Expr* e, u64 k, Lin& l) {
  switch (e->op) {
    case E_CONST: l.c += k * e->k; return;
    case E_ADD: toLin(e->a, k, l); toLin(e->b, k, l); return;
    case E_MUL: if (isC(e->b)) { toLin(e->a, k * e->b->k, l); return; } break;
    case E_XOR: if (e->w > 1 && isC(e->b) && e->b->k == maskw(e->w)) { l.c -= k; toLin(e->a, 0 - k, l); return; } break;
    default: break;
  }
  for (auto& p : l.t) if (p.first == e) { p.second += k; return; }
  l.t.emplace_back(e, k);
}
static void normLin(Lin& l, unsigned w) {
  for (auto& p : l.t) p.second &= maskw(w);
  l.c &= maskw(w);
  l.t.erase(std::remove_if(l.t.begin(), l.t.end(), [](std::pair<Expr*, u64> const& p) { return p.second == 0; }), l.t.end());
  std::sort(l.t.begin(), l.t.end(), [](std::pair<Expr*, u64> const& x, std::pair<Expr*, u64> const& y) { return x.first->id < y.first->id; });
}
static Expr* fromLin(Lin const& l, u8 w) {  // l normalised
  Expr* acc = nullptr;
  for (auto& p : l.t) {
    Expr* t = p.second == 1 ? p.first : raw(E_MUL, w, 0, p.first, mkConst(p.second, w));
    acc = acc ? raw(E_ADD, w, 0, acc, t) : t;
  }
  if (!acc) return mkConst(l.c, w);
  return (l.c & maskw(w)) ? raw(E_ADD, w, 0, acc, mkConst(l.c, w)) : acc;
}
static u64 maxVal(Expr* e);
// no partial sum, read as signed integers, leaves 62 bits
static bool smallLin(Lin const& l, unsigned w) {
  if (w != 64) return false;
  unsigned __int128 s = 0; i64 c = (i64)l.c; s += c < 0 ? (u64)-c : (u64)c;
  for (auto& p : l.t) { i64 k = (i64)p.second; s += (unsigned __int128)(k < 0 ? (u64)0 - (u64)k : (u64)k) * maxVal(p.first); if (s >> 62) return false; }
  return !(s >> 62);
}
static Expr* mkSub(Expr* a, Expr* b) {
  if (a == b) return mkConst(0, a->w);
  if (a->w > 1) { Lin l; toLin(a, 1, l); toLin(b, ~0ull, l); normLin(l, a->w); return fromLin(l, a->w); }
  if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->k, a->w));
  // (x + c) - x , (x + c) - (x + d), x - (x + d)
  Expr *xa = a, *xb = b; u64 ca = 0, cb = 0;
  if (a->op == E_ADD && isC(a->b)) { xa = a->a; ca = a->b->k; }
  if (b->op == E_ADD && isC(b->b)) { xb = b->a; cb = b->b->k; }
  if (xa == xb) return mkConst(ca - cb, a->w);
  // (x + y) - y
  if (xa->op == E_ADD && (xa->a == xb || xa->b == xb))
    return mkBin(E_ADD, xa->a == xb ? xa->b : xa->a, mkConst(ca - cb, a->w));
  return mkBin(E_ADD, a, mkNeg(b));
}
static Expr* mkBin(EOp op, Expr* a, Expr* b) {
  unsigned w = a->w;
  u8 rw = isCmp(op) ? 1 : (u8)w;
  if (isC(a) && isC(b)) {
    bool ok; u64 r = foldBin(op, a->k, b->k, w, ok);
    if (ok) return mkConst(r, rw);
  }
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  bool cb = isC(b);
  switch (op) {
    case E_ADD:
      if (cb && b->k == 0) return a;
      if (cb && a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->k + b->k, w));
      if (!cb && a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
      if (!cb && b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
      if (w > 1) { Lin l; toLin(a, 1, l); toLin(b, 1, l); normLin(l, w); return fromLin(l, (u8)w); }
      break;
    case E_MUL:
      if (cb && b->k == 1) return a;
      if (cb && b->k == 0) return b;
      if (cb && w > 1) { Lin l; toLin(a, b->k, l); normLin(l, w); return fromLin(l, (u8)w); }
      break;
    case E_AND:
      if (a == b) return a;
      if (cb && b->k == 0) return b;
      if (cb && b->k == maskw(w)) return a;
      if (cb && a->op == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkConst(a->b->k & b->k, w));
      if (cb && (a->op == E_ADD || a->op == E_OR) && isC(a->b) && a->a->op == E_MUL && isC(a->a->b) && a->a->b->k && !(a->a->b->k & (a->a->b->k - 1)) && a->b->k < a->a->b->k && b->k < a->a->b->k) return mkConst(a->b->k & b->k, w);
      if (cb && a->op == E_ZEXT && (b->k & maskw(a->a->w)) == maskw(a->a->w)) return a;
      if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
      break;
    case E_OR:
      if (a == b) return a;
      if (cb && b->k == 0) return a;
      if (cb && b->k == maskw(w)) return b;
      break;
    case E_XOR:
      if (a == b) return mkConst(0, w);
      if (cb && b->k == 0) return a;
      if (cb && a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(a->b->k ^ b->k, w));
      if (w == 1 && cb && b->k == 1) {
        if (a->op == E_ULT) return mkBin(E_ULE, a->b, a->a);
        if (a->op == E_ULE) return mkBin(E_ULT, a->b, a->a);
        if (a->op == E_SLT) return mkBin(E_SLE, a->b, a->a);
        if (a->op == E_SLE) return mkBin(E_SLT, a->b, a->a);
      }
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (cb && b->k == 0) return a;
      if (cb && b->k < w && op == E_SHL) return mkBin(E_MUL, a, mkConst(1ull << b->k, w));
      if (cb && b->k < w && op == E_LSHR) return mkZext(mkExtract(a, (unsigned)b->k, (u8)(w - b->k)), (u8)w);
      break;
    case E_UDIV:
      if (cb && b->k == 1) return a;
      if (cb && b->k && !(b->k & (b->k - 1))) return mkBin(E_LSHR, a, mkConst((u64)__builtin_ctzll(b->k), w));
      break;
    case E_UREM:
      if (cb && b->k && !(b->k & (b->k - 1))) return mkBin(E_AND, a, mkConst(b->k - 1, w));
      break;
    case E_SDIV:
      if (cb && b->k == 1) return a;
      if (cb && w == 64 && (i64)b->k > 0) {  // pointer differences: every part divisible and no overflow
        Lin l; toLin(a, 1, l); normLin(l, w); bool ok = (i64)l.c % (i64)b->k == 0;
        for (auto& p : l.t) ok &= (i64)p.second % (i64)b->k == 0;
        if (ok && smallLin(l, w)) { for (auto& p : l.t) p.second = (u64)((i64)p.second / (i64)b->k); l.c = (u64)((i64)l.c / (i64)b->k); return fromLin(l, (u8)w); }
      }
      break;
    case E_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && cb) return b->k ? a : mkNot(a);
      if (w > 1 && (a->op == E_ADD || a->op == E_MUL || b->op == E_ADD || b->op == E_MUL)) {
        Lin l; toLin(a, 1, l); toLin(b, ~0ull, l); normLin(l, w);
        if (l.t.empty()) return mkConst(l.c == 0, 1);
        if (smallLin(l, w)) {
          u64 g = 0; for (auto& p : l.t) { i64 k = (i64)p.second; u64 x = k < 0 ? (u64)-k : (u64)k; while (x) { u64 y = g % x; g = x; x = y; } }
          if ((i64)l.c % (i64)g) return mkConst(0, 1);
          if (g > 1) { for (auto& p : l.t) p.second = (u64)((i64)p.second / (i64)g); l.c = (u64)((i64)l.c / (i64)g); }
        }
        Lin x, y; for (auto& p : l.t) if (sextw(p.second, w) > 0) x.t.push_back(p); else y.t.emplace_back(p.first, 0 - p.second);
        y.c = 0 - l.c; if (x.t.empty()) { x.t.swap(y.t); y.c = l.c; }
        normLin(x, w); normLin(y, w);
        a = fromLin(x, (u8)w); b = fromLin(y, (u8)w);
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        cb = isC(b);
      }
      if (cb) {
        if (a->op == E_ZEXT) {
          if (b->k > maskw(a->a->w)) return mkConst(0, 1);
          return mkBin(E_EQ, a->a, mkConst(b->k, a->a->w));
        }
        if (a->op == E_SEXT) {
          u64 lo = b->k & maskw(a->a->w);
          if (((u64)sextw(lo, a->a->w) & maskw(w)) != b->k) return mkConst(0, 1);
          return mkBin(E_EQ, a->a, mkConst(lo, a->a->w));
        }
        if (a->op == E_ITE && isC(a->b) && isC(a->c)) {
          bool t = a->b->k == b->k, f = a->c->k == b->k;
          if (t && f) return mkConst(1, 1);
          if (t) return a->a;
          if (f) return mkNot(a->a);
          return mkConst(0, 1);
        }
        if (a->op == E_CONCAT)
          return mkBin(E_AND, mkBin(E_EQ, a->a, mkConst(b->k >> a->b->w, a->a->w)),
                       mkBin(E_EQ, a->b, mkConst(b->k, a->b->w)));
        if (b->k > maxVal(a)) return mkConst(0, 1);
      } else {
        Expr *xa = a, *xb = b; u64 ca = 0, cc = 0;
        if (a->op == E_ADD && isC(a->b)) { xa = a->a; ca = a->b->k; }
        if (b->op == E_ADD && isC(b->b)) { xb = b->a; cc = b->b->k; }
        if (xa == xb) return mkConst(((ca - cc) & maskw(w)) == 0, 1);
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(E_EQ, a->a, b->a);
      }
      break;
    case E_ULT:
      if (a == b) return mkConst(0, 1);
      if (cb && b->k == 0) return mkConst(0, 1);
      if (cb && b->k == 1) return mkBin(E_EQ, a, mkConst(0, w));
      if (cb && maxVal(a) < b->k) return mkConst(1, 1);
      if (isC(a) && a->k >= maxVal(b)) return mkConst(0, 1);
      if (a->op == E_ZEXT && cb) return mkBin(E_ULT, a->a, mkConst(b->k, a->a->w));
      if (b->op == E_ZEXT && isC(a)) return mkBin(E_ULT, mkConst(a->k, b->a->w), b->a);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(E_ULT, a->a, b->a);
      if (a->op == E_UREM && a->b == b) return mkNot(mkBin(E_EQ, b, mkConst(0, b->w)));  // division by zero is a violation of its own
      break;
    case E_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(a) && a->k == 0) return mkConst(1, 1);
      if (cb && maxVal(a) <= b->k) return mkConst(1, 1);
      if (isC(a) && a->k > maxVal(b)) return mkConst(0, 1);
      if (a->op == E_ZEXT && cb) return mkBin(E_ULE, a->a, mkConst(b->k, a->a->w));
      if (b->op == E_ZEXT && isC(a)) return mkBin(E_ULE, mkConst(a->k, b->a->w), b->a);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(E_ULE, a->a, b->a);
      break;
    case E_SLT: case E_SLE:
      if (a == b) return mkConst(op == E_SLE, 1);
      // both known non-negative: unsigned comparison
      if (maxVal(a) <= maskw(w) / 2 && maxVal(b) <= maskw(w) / 2)
        return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (w == 64) {  // difference without overflow: compare non-negative sums instead
        Lin la, lb; toLin(a, 1, la); normLin(la, w); toLin(b, 1, lb); normLin(lb, w);
        Lin l = la; toLin(b, ~0ull, l); normLin(l, w);
        if (smallLin(la, w) && smallLin(lb, w) && smallLin(l, w)) {
          Lin x, y; for (auto& p : l.t) if ((i64)p.second > 0) x.t.push_back(p); else y.t.emplace_back(p.first, 0 - p.second);
          if ((i64)l.c > 0) x.c = l.c; else y.c = 0 - l.c;
          normLin(x, w); normLin(y, w);
          return mkBin(op == E_SLT ? E_ULT : E_ULE, fromLin(x, (u8)w), fromLin(y, (u8)w));
        }
      }
      break;
    default: break;
  }
  return raw(op, rw, 0, a, b);
}
static Expr* mkNot(Expr* e) {
  if (isC(e)) return mkConst(!e->k, 1);
  return mkBin(E_XOR, e, mkConst(1, 1));
}
static Expr* mkZext(Expr* e, u8 w) {
  if (e->w == w) return e;
  if (isC(e)) return mkConst(e->k, w);
  if (e->op == E_ZEXT) return mkZext(e->a, w);
  return raw(E_ZEXT, w, 0, e);
}
static Expr* mkSext(Expr* e, u8 w) {
  if (e->w == w) return e;
  if (isC(e)) return mkConst((u64)sextw(e->k, e->w), w);
  if (e->op == E_ZEXT) return mkZext(e->a, w);
  return raw(E_SEXT, w, 0, e);
}
static bool shifted(Expr* e, Expr*& x, unsigned& k) {  // e == x << k
  if (e->op == E_MUL && isC(e->b) && e->b->k && !(e->b->k & (e->b->k - 1))) { x = e->a; k = (unsigned)__builtin_ctzll(e->b->k); return true; }
  return false;
}
static Expr* mkExtract(Expr* e, unsigned off, u8 w) {
  if (off == 0 && w == e->w) return e;
  if (isC(e)) return mkConst(e->k >> off, w);
  { Expr* x; unsigned k;
    if (shifted(e, x, k) && off >= k) return mkExtract(x, off - k, w);
    if ((e->op == E_ADD || e->op == E_OR) && isC(e->b) && shifted(e->a, x, k) && e->b->k < (1ull << k)) {
      if (off >= k) return mkExtract(x, off - k, w);
      if (off + w <= k) return mkConst(e->b->k >> off, w);
    } }
  if (e->op == E_EXTRACT) return mkExtract(e->a, off + (unsigned)e->k, w);
  if (e->op == E_ZEXT || e->op == E_SEXT) {
    unsigned iw = e->a->w;
    if (off + w <= iw) return mkExtract(e->a, off, w);
    if (e->op == E_ZEXT && off >= iw) return mkConst(0, w);
    if (off == 0) return e->op == E_ZEXT ? mkZext(e->a, w) : mkSext(e->a, w);
  }
  if (e->op == E_CONCAT) {
    unsigned lw = e->b->w;
    if (off + w <= lw) return mkExtract(e->b, off, w);
    if (off >= lw) return mkExtract(e->a, off - lw, w);
  }
  if (off == 0 && (e->op == E_ADD || e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_MUL) && isC(e->b))
    return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
  if (e->op == E_ITE && isC(e->b) && isC(e->c))
    return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
  return raw(E_EXTRACT, w, off, e);
}
static Expr* mkConcat(Expr* hi, Expr* lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->k << lo->w) | lo->k, hi->w + lo->w);
  if (isC(hi) && hi->k == 0) return mkZext(lo, hi->w + lo->w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w)
    return mkExtract(hi->a, (unsigned)lo->k, hi->w + lo->w);
  return raw(E_CONCAT, hi->w + lo->w, 0, hi, lo);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
    if (isC(a)) return a->k ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->k ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  return raw(E_ITE, a->w, 0, c, a, b);
}
static u64 g_evalGen = 1;
static u64 evalE(Expr* e, std::vector<u64> const& m) {
  if (isC(e)) return e->k;
  if (e->evalGen == g_evalGen) return e->evalVal;
  u64 r = 0;
  switch (e->op) {
    case E_SYM: r = e->k < m.size() ? m[e->k] & maskw(e->w) : 0; break;
    case E_UNDEF: r = 0; break;
    case E_ZEXT: r = evalE(e->a, m); break;
    case E_SEXT: r = (u64)sextw(evalE(e->a, m), e->a->w) & maskw(e->w); break;
    case E_EXTRACT: r = (evalE(e->a, m) >> e->k) & maskw(e->w); break;
    case E_CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    case E_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    default: { bool ok; r = foldBin(e->op, evalE(e->a, m), evalE(e->b, m), e->a->w, ok); if (!ok) r = e->op == E_UDIV ? maskw(e->w) : e->op == E_UREM ? evalE(e->a, m) : 0; }
  }
  e->evalGen = g_evalGen; e->evalVal = r;
  return r;
}

// ---------------------------------------------------------------- solver
static Z3_context Z;
static Z3_solver ZS;
static u64 g_queries = 0, g_sat = 0, g_unsat = 0, g_cacheHits = 0, g_unknown = 0, g_assertQ = 0, g_assertTrivial = 0;
static double g_solverTime = 0;
static std::string g_smtDir; static u64 g_smtDumped = 0, g_smtMax = 400;
static std::vector<std::string> g_symNames; static std::vector<u8> g_symW;

static Z3_ast zBool(Expr* e);
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast zBV(Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  auto sort = [&](unsigned w) { return Z3_mk_bv_sort(Z, w); };
  if (e->w == 1 && e->op != E_CONST && e->op != E_SYM && e->op != E_UNDEF && e->op != E_EXTRACT) {
    r = Z3_mk_ite(Z, zBool(e), Z3_mk_unsigned_int64(Z, 1, sort(1)), Z3_mk_unsigned_int64(Z, 0, sort(1)));
  } else switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64(Z, e->k, sort(e->w)); break;
    case E_SYM: r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("s" + std::to_string(e->k) + "w" + std::to_string(e->w)).c_str()), sort(e->w)); break;
    case E_UNDEF: r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("u" + std::to_string(e->k)).c_str()), sort(e->w)); break;
    case E_ADD: r = Z3_mk_bvadd(Z, zBV(e->a), zBV(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(Z, zBV(e->a), zBV(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(Z, zBV(e->a), zBV(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(Z, zBV(e->a), zBV(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(Z, zBV(e->a), zBV(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(Z, zBV(e->a), zBV(e->b)); break;
    case E_AND: r = Z3_mk_bvand(Z, zBV(e->a), zBV(e->b)); break;
    case E_OR: r = Z3_mk_bvor(Z, zBV(e->a), zBV(e->b)); break;
    case E_XOR: r = Z3_mk_bvxor(Z, zBV(e->a), zBV(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(Z, zBV(e->a), zBV(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(Z, zBV(e->a), zBV(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(Z, zBV(e->a), zBV(e->b)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zBV(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zBV(e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->k + e->w - 1, (unsigned)e->k, zBV(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, zBV(e->a), zBV(e->b)); break;
    case E_ITE: r = Z3_mk_ite(Z, zBool(e->a), zBV(e->b), zBV(e->c)); break;
    default: abort();
  }
  return e->zbv = keep(r);
}
static Z3_ast zBool(Expr* e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = e->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(Z, zBool(e->a), zBool(e->b)) : Z3_mk_eq(Z, zBV(e->a), zBV(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, zBV(e->a), zBV(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(Z, zBV(e->a), zBV(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, zBV(e->a), zBV(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(Z, zBV(e->a), zBV(e->b)); break;
    case E_AND: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_and(Z, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_or(Z, 2, x); break; }
    case E_XOR: r = (isC(e->b) && e->b->k == 1) ? Z3_mk_not(Z, zBool(e->a)) : Z3_mk_xor(Z, zBool(e->a), zBool(e->b)); break;
    case E_ITE: r = Z3_mk_ite(Z, zBool(e->a), zBool(e->b), zBool(e->c)); break;
    default: r = Z3_mk_eq(Z, zBV(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
  }
  return e->zbool = keep(r);
}
struct QResult { int sat; std::vector<std::pair<u32, u64>> model; };
struct VecHash { size_t operator()(std::vector<u32> const& v) const { u64 h = v.size(); for (u32 x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
static std::unordered_map<std::vector<u32>, QResult, VecHash> g_cache;

// Is (constraints and cond) satisfiable?  Only the constraints connected to cond through shared
// symbols matter: the rest of the path condition is satisfiable by construction.
static int g_timeoutMs = 60000;
static QResult const& query(std::vector<Expr*> const& pc, Expr* cond) {
  static std::vector<u8> used; used.assign(pc.size(), 0);
  SymSet const* s = cond->syms; SymSet cur(*s);
  std::vector<Expr*> slice; bool more = true;
  while (more) {
    more = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      bool touch = false;
      auto &p = *pc[i]->syms; size_t x = 0, y = 0;
      while (x < p.size() && y < cur.size()) { if (p[x] == cur[y]) { touch = true; break; } if (p[x] < cur[y]) x++; else y++; }
      if (touch) {
        used[i] = 1; slice.push_back(pc[i]); more = true;
        SymSet u; std::set_union(cur.begin(), cur.end(), p.begin(), p.end(), std::back_inserter(u)); cur.swap(u);
      }
    }
  }
  std::vector<u32> key; for (auto* e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(cond->id);
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_cacheHits++; return it->second; }
  double t0 = now();
  g_queries++;
  Z3_solver_push(Z, ZS);
  for (auto* e : slice) Z3_solver_assert(Z, ZS, zBool(e));
  Z3_solver_assert(Z, ZS, zBool(cond));
  Z3_lbool r = Z3_solver_check(Z, ZS);
  QResult q; q.sat = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (q.sat == 1) {
    g_sat++;
    Z3_model m = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, m);
    for (u32 sy : cur) {
      u8 w = g_symW[sy];
      Z3_ast v; Expr* se = raw(E_SYM, w, sy);
      if (Z3_model_eval(Z, m, zBV(se), true, &v)) { uint64_t u = 0; Z3_get_numeral_uint64(Z, v, &u); q.model.emplace_back(sy, u); }
    }
    Z3_model_dec_ref(Z, m);
  } else if (q.sat == 0) g_unsat++; else g_unknown++;
  if (!g_smtDir.empty() && g_smtDumped < g_smtMax && (g_queries % 3) == 0 && q.sat >= 0) {
    std::ofstream f(g_smtDir + "/q" + std::to_string(g_smtDumped++) + (q.sat ? ".sat" : ".unsat") + ".smt2");
    f << "(set-logic QF_BV)\n" << Z3_solver_to_string(Z, ZS) << "(check-sat)\n";
  }
  Z3_solver_pop(Z, ZS, 1);
  g_solverTime += now() - t0;
  return g_cache.emplace(std::move(key), std::move(q)).first->second;
}

// ---------------------------------------------------------------- values and memory
struct Val {
  u64 v = 0; Expr* e = nullptr;
  Val() {}
  Val(u64 x) : v(x) {}
  static Val of(Expr* x) { Val r; if (isC(x)) r.v = x->k; else r.e = x; return r; }
};
static inline Expr* toE(Val const& x, u8 w) { return x.e ? x.e : mkConst(x.v, w); }

struct SymByte { Expr* e; u32 idx; };
enum Kind : u8 { K_GLOBAL, K_HEAP, K_STACK, K_EXC };
struct Obj {
  u32 rc = 1; u32 size; Kind kind; bool constant = false; bool external = false; bool roMark = false, shared = false;
  u8 tag = 0;  // allocation function family
  std::vector<u8> data, st;  // st: 0 undefined, 1 concrete, 2 symbolic
  std::vector<SymByte> sym;
  std::vector<std::pair<u32, u64>> ghost;
  Obj(u32 s, Kind k, u8 init) : size(s), kind(k), data(s, 0), st(s, init) {}
};
static void decObj(Obj* o) { if (o && --o->rc == 0) delete o; }
static Obj* const FREED = (Obj*)1;
struct Chunk { u32 rc = 1; Obj* o[32] = {}; };
struct Table {
  std::vector<Chunk*> ch; u32 n = 0;
  Table() {}
  Table(Table const& t) : ch(t.ch), n(t.n) { for (auto* c : ch) c->rc++; }
  Table& operator=(Table const&) = delete;
  Table(Table&& t) noexcept : ch(std::move(t.ch)), n(t.n) { t.ch.clear(); t.n = 0; }
  Table& operator=(Table&& t) noexcept { clear(); ch = std::move(t.ch); n = t.n; t.ch.clear(); t.n = 0; return *this; }
  ~Table() { clear(); }
  void clear() { for (auto* c : ch) rel(c); ch.clear(); n = 0; }
  static void rel(Chunk* c) { if (--c->rc == 0) { for (auto* o : c->o) if (o && o != FREED) decObj(o); delete c; } }
  Obj* get(u32 i) const { return i < n ? ch[i >> 5]->o[i & 31] : nullptr; }
  Chunk* uniq(u32 i) {
    Chunk*& c = ch[i >> 5];
    if (c->rc > 1) { auto* d = new Chunk; for (int k = 0; k < 32; k++) { d->o[k] = c->o[k]; if (d->o[k] && d->o[k] != FREED) d->o[k]->rc++; } c->rc--; c = d; }
    return c;
  }
  Obj* getW(u32 i) {
    Chunk* c = uniq(i); Obj*& o = c->o[i & 31];
    if (o->rc > 1) { auto* d = new Obj(*o); d->rc = 1; o->rc--; o = d; }
    return o;
  }
  u32 push(Obj* o) { if ((n & 31) == 0 && (n >> 5) == ch.size()) ch.push_back(new Chunk); Chunk* c = uniq(n); c->o[n & 31] = o; return n++; }
  void kill(u32 i) { Chunk* c = uniq(i); Obj*& o = c->o[i & 31]; if (o && o != FREED) decObj(o); o = FREED; }
  void popTo(u32 m) { while (n > m) { n--; Chunk* c = uniq(n); Obj*& o = c->o[n & 31]; if (o && o != FREED) decObj(o); o = nullptr; } }
};
// address = region << 60 | (id + 1) << 32 | offset ; region 1 globals+heap, 2 stack, 3 functions
static const u64 R_MAIN = 1ull << 60, R_STACK = 2ull << 60, R_FUNC = 3ull << 60;

// ---------------------------------------------------------------- decoded code
enum IOp : u8 {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_EQ, I_NE, I_UGT, I_UGE, I_ULT, I_ULE, I_SGT, I_SGE, I_SLT, I_SLE,
  I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_GEP, I_LOAD, I_ARMW, I_STORE, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_RET,
  I_CALL, I_INVOKE, I_SELECT, I_LANDINGPAD, I_RESUME, I_UNREACHABLE, I_INTR, I_FREEZE, I_UNSUP
};
struct Func;
struct Edge { u32 target; std::vector<std::pair<i32, i32>> copies; };
struct CallInfo {
  Func* f = nullptr; i32 fp = 0; std::vector<i32> args; std::vector<u64> byval;  // byval size or 0 per arg
  std::vector<u8> argw; u32 nret = 0; int intr = 0; Edge normal, unwind; u8 retw = 0;
};
struct GepInfo { std::vector<std::pair<i32, u64>> idx; std::vector<u8> w; };
struct SwitchInfo { std::vector<std::pair<u64, Edge>> cases; Edge def; };
struct LpInfo { bool cleanup; std::vector<u64> catches; std::vector<bool> isFilter; };
struct BrInfo { Edge t, f; };
struct Part { u32 off; u8 w; };
struct Ins { u8 op; u8 w; u8 w2; u8 n; i32 dst, a, b, c; u64 k; void* p; llvm::DILocation const* loc; };
struct Func {
  llvm::Function* F; std::string name, dem; bool decoded = false; bool isSeq = false; u32 nregs = 0; u64 addr; u64 hits = 0;
  std::vector<Ins> code; std::vector<Val> consts; u32 nparam = 0; int ext = 0;
};
struct Frame { Func* f; u32 base, pc, stackMark; i32 dst; u32 nret; CallInfo* ci; };
struct Exc { u64 ptr = 0, tinfo = 0; };
struct Sym { std::string name; u8 w; u64 display; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; Table mem, stack;
  std::vector<Expr*> pc; std::vector<u64> model; u32 nsym = 0; std::vector<std::pair<std::string, Expr*>> inputs;
  Exc cur; std::vector<Exc> caught; bool unwinding = false; bool readonly = false; u64 steps = 0, counted = 0, work = 0; u64 heapLive = 0;
  u64 nchecks = 0;  // checks passed on this path
  std::vector<Expr*> trace;  // values passed to sx_trace
  std::vector<Exc> excInfo;  // exception objects -> typeinfo
  std::vector<std::pair<u64, u64>> rng;  // per symbol: unsigned bounds implied by pc
  SymSet pins;  // symbols the path condition fixes to one value
};

// ---------------------------------------------------------------- engine
static llvm::Module* M; static llvm::DataLayout const* DL;
static std::unordered_map<llvm::Function const*, Func*> g_funcs; static std::vector<Func*> g_funcList;
static std::unordered_map<llvm::GlobalVariable const*, u64> g_globals;
static std::map<std::string, i64> g_params;
static std::map<std::string, u64> g_covers;
static u64 g_paths = 0, g_killed = 0, g_unsup = 0, g_steps = 0, g_forks = 0, g_memChecks = 0;
static std::map<std::string, u64> g_unsupMsg;
struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, u64>> inputs; };
static std::vector<Violation> g_viol; static std::set<std::string> g_violKeys; static u32 g_maxViol = 4; static u64 g_maxSamples = 24, g_nextSample = 1;
static std::vector<std::unique_ptr<State>> g_work;
static std::vector<std::vector<std::pair<std::string, u64>>> g_samples;
static std::map<u64, std::string> g_typeinfoNames;

struct PathEnd { };
struct Unsupported { std::string what; };

static std::string where(State& s) {
  std::string r;
  for (int i = (int)s.fr.size() - 1; i >= 0 && i >= (int)s.fr.size() - 6; i--) {
    Frame& f = s.fr[i]; Ins& I = f.f->code[std::min<size_t>(f.pc, f.f->code.size() - 1)];
    if (!r.empty()) r += " <- ";
    std::string d = f.f->dem; auto p = d.find('('); if (p != std::string::npos) d = d.substr(0, p);
    if (d.size() > 160) d = "..." + d.substr(d.size() - 150);
    r += d;
    if (I.loc) { auto fn = I.loc->getFilename().str(); auto q = fn.rfind('/'); r += "@" + (q == std::string::npos ? fn : fn.substr(q + 1)) + ":" + std::to_string(I.loc->getLine()); }
  }
  return r;
}
static void report(State& s, std::string const& kind, std::string const& msg, std::vector<u64> const& model) {
  std::string top = where(s);
  std::string key = kind + "|" + msg + "|" + top.substr(0, top.find(" <- "));
  if (!g_violKeys.insert(key).second) return;
  Violation v{kind, msg, top, {}};
  g_evalGen++;
  for (auto& in : s.inputs) v.inputs.emplace_back(in.first, evalE(in.second, model));
  g_viol.push_back(v);
}
[[noreturn]] static void fail(State& s, std::string const& kind, std::string const& msg) { report(s, kind, msg, s.model); throw PathEnd{}; }
[[noreturn]] static void unsup(std::string const& w) { throw Unsupported{w}; }

static void applyModel(State& s, QResult const& q) { for (auto& p : q.model) { if (p.first >= s.model.size()) s.model.resize(p.first + 1, 0); s.model[p.first] = p.second; } g_evalGen++; }

// Unsigned bounds of an expression implied by the path condition (sound over-approximation).
typedef std::pair<u64, u64> Rng;
static u64 g_rangeClosed = 0;
static int truth(State& s, Expr* c, int d = 0);
struct LinTerm { Expr* e; i64 k; __int128 lo, hi; };
static bool linBounds(State& s, Expr* e, int d, __int128& lo, __int128& hi, std::vector<LinTerm>* terms, i64* cst = nullptr);
static Rng range(State& s, Expr* e, int d = 0) {
  u64 m = maskw(e->w); Rng full(0, m);
  if (isC(e)) return Rng(e->k, e->k);
  if (d > 10) return full;
  switch (e->op) {
    case E_SYM: return e->k < s.rng.size() ? s.rng[e->k] : full;
    case E_ZEXT: return range(s, e->a, d + 1);
    case E_ADD: case E_MUL: {
      if (e->op == E_MUL && !isC(e->b)) {
        Rng a = range(s, e->a, d + 1), b = range(s, e->b, d + 1);
        unsigned __int128 hi = (unsigned __int128)a.second * b.second;
        if (hi <= m) return Rng(a.first * b.first, (u64)hi);
        return full;
      }
      __int128 lo, hi; if (!linBounds(s, e, d, lo, hi, nullptr)) return full;
      if (lo >= 0 && hi <= (__int128)m) return Rng((u64)lo, (u64)hi);
      if (hi < 0 && -lo <= (__int128)m) return Rng((u64)lo & m, (u64)hi & m);
      return full; }
    case E_ITE: {
      int t = truth(s, e->a, d + 1); if (t == 1) return range(s, e->b, d + 1); if (t == 0) return range(s, e->c, d + 1);
      Rng a = range(s, e->b, d + 1), b = range(s, e->c, d + 1); return Rng(std::min(a.first, b.first), std::max(a.second, b.second)); }
    case E_EXTRACT: {
      Rng a = range(s, e->a, d + 1);
      if (e->k == 0 && a.second <= m) return a;
      if (e->k + e->w == e->a->w) return Rng(a.first >> e->k, a.second >> e->k);
      return full; }
    case E_UDIV: { Rng a = range(s, e->a, d + 1); if (isC(e->b) && e->b->k) return Rng(a.first / e->b->k, a.second / e->b->k); return Rng(0, m); }
    case E_UREM: { Rng a = range(s, e->a, d + 1); if (isC(e->b) && e->b->k) { if (a.second < e->b->k) return a; return Rng(0, e->b->k - 1); } Rng b = range(s, e->b, d + 1); if (b.first) { if (a.second < b.first) return a; return Rng(0, std::min(a.second, b.second - 1)); } return full; }
    case E_AND: { Rng a = range(s, e->a, d + 1), b = range(s, e->b, d + 1); return Rng(0, std::min(a.second, b.second)); }
    default:
      if (e->w == 1) { int t = truth(s, e, d + 1); if (t >= 0) return Rng((u64)t, (u64)t); }
      return full;
  }
}
static int truth(State& s, Expr* c, int d) {
  if (isC(c)) return (int)c->k;
  if (d > 10 || c->undef) return -1;
  switch (c->op) {
    case E_EQ: { Rng a = range(s, c->a, d + 1), b = range(s, c->b, d + 1); if (a.second < b.first || b.second < a.first) return 0; if (a.first == a.second && b == a) return 1; return -1; }
    case E_SLT: case E_SLE: {
      Rng a = range(s, c->a, d + 1), b = range(s, c->b, d + 1); u64 h = 1ull << (c->a->w - 1);
      if ((a.first < h) != (a.second < h) || (b.first < h) != (b.second < h)) return -1;
      a.first ^= h; a.second ^= h; b.first ^= h; b.second ^= h;
      if (c->op == E_SLT) return a.second < b.first ? 1 : a.first >= b.second ? 0 : -1;
      return a.second <= b.first ? 1 : a.first > b.second ? 0 : -1; }
    case E_ULT: { Rng a = range(s, c->a, d + 1), b = range(s, c->b, d + 1); return a.second < b.first ? 1 : a.first >= b.second ? 0 : -1; }
    case E_ULE: { Rng a = range(s, c->a, d + 1), b = range(s, c->b, d + 1); return a.second <= b.first ? 1 : a.first > b.second ? 0 : -1; }
    case E_XOR: if (c->w == 1 && isC(c->b) && c->b->k == 1) { int t = truth(s, c->a, d + 1); return t < 0 ? -1 : !t; } return -1;
    case E_AND: if (c->w == 1) { int a = truth(s, c->a, d + 1), b = truth(s, c->b, d + 1); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; } return -1;
    case E_OR: if (c->w == 1) { int a = truth(s, c->a, d + 1), b = truth(s, c->b, d + 1); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; } return -1;
    case E_SYM: case E_ZEXT: case E_EXTRACT: case E_ITE: if (c->w == 1) { Rng r = range(s, c, d + 1); if (r.first == r.second) return (int)r.first; } return -1;
    default: return -1;
  }
}
// integer bounds of a linear form read with signed coefficients
static bool linBounds(State& s, Expr* e, int d, __int128& lo, __int128& hi, std::vector<LinTerm>* terms, i64* cst) {
  Lin l; toLin(e, 1, l); normLin(l, e->w);
  if (l.t.size() > 12) return false;
  i64 c = sextw(l.c, e->w); lo = hi = c; if (cst) *cst = c;
  for (auto& p : l.t) {
    Rng r = range(s, p.first, d + 1); i64 k = sextw(p.second, e->w);
    if (r.second >> 40 || k > (1ll << 40) || k < -(1ll << 40)) { if (!(l.t.size() == 1 && k == 1)) return false; }
    __int128 x = (__int128)r.first * k, y = (__int128)r.second * k; if (x > y) std::swap(x, y);
    lo += x; hi += y;
    if (terms) terms->push_back({p.first, k, x, y});
  }
  return true;
}
static void refine(State& s, Expr* x, u64 lo, u64 hi, int d = 0) {
  if (lo > hi || d > 10) return;
  switch (x->op) {
    case E_SYM: {
      while (s.rng.size() <= x->k) s.rng.emplace_back(0, ~0ull);
      Rng& r = s.rng[x->k]; Rng n(std::max(r.first, lo), std::min(r.second, hi)); if (n.first <= n.second) r = n; return; }
    case E_ZEXT: refine(s, x->a, lo, std::min(hi, maskw(x->a->w)), d + 1); return;
    case E_ADD: case E_MUL: {
      if (x->op == E_MUL && !isC(x->b)) return;
      std::vector<LinTerm> ts; __int128 L, H; i64 c; u64 m = maskw(x->w);
      if (!linBounds(s, x, d, L, H, &ts, &c)) return;
      __int128 wl = lo, wh = hi;  // wanted integer interval
      if (L >= 0 && H <= (__int128)m) ;
      else if (H < 0 && -L <= (__int128)m) { wl -= (__int128)m + 1; wh -= (__int128)m + 1; }
      else return;
      for (auto& t : ts) {
        __int128 rl = wl - (H - t.hi), rh = wh - (L - t.lo);  // interval for k*t
        __int128 k = t.k, a = rl, b = rh; if (k < 0) { k = -k; a = -rh; b = -rl; }
        a = a <= 0 ? 0 : (a + k - 1) / k; if (b < 0) return; b = b / k;
        u64 tm = maskw(t.e->w); if (a > (__int128)tm || a > b) return;
        refine(s, t.e, (u64)a, b > (__int128)tm ? tm : (u64)b, d + 1);
      }
      return; }
    case E_EXTRACT: if (x->k == 0) { Rng a = range(s, x->a); if (a.second <= maskw(x->w)) refine(s, x->a, lo, hi, d + 1); } return;
    default: return;
  }
}
static void learn(State& s, Expr* c, bool pos, int d = 0) {
  if (d > 6) return;
  switch (c->op) {
    case E_SYM: if (c->w == 1) refine(s, c, pos, pos); return;
    case E_AND: if (c->w == 1 && pos) { learn(s, c->a, true, d + 1); learn(s, c->b, true, d + 1); } return;
    case E_OR: if (c->w == 1 && !pos) { learn(s, c->a, false, d + 1); learn(s, c->b, false, d + 1); } return;
    case E_XOR: if (c->w == 1 && isC(c->b) && c->b->k == 1) learn(s, c->a, !pos, d + 1); return;
    case E_EQ: {
      Rng a = range(s, c->a), b = range(s, c->b);
      if (pos) { refine(s, c->a, b.first, b.second); refine(s, c->b, a.first, a.second); }
      else if (b.first == b.second) { if (a.first == b.first && a.first < a.second) refine(s, c->a, a.first + 1, a.second); else if (a.second == b.first && a.first < a.second) refine(s, c->a, a.first, a.second - 1); }
      return; }
    case E_SLT: case E_SLE: case E_ULT: case E_ULE: {
      Rng a = range(s, c->a), b = range(s, c->b); bool strict = c->op == E_ULT || c->op == E_SLT; Expr *x = c->a, *y = c->b;
      if (c->op == E_SLT || c->op == E_SLE) { u64 h = 1ull << (x->w - 1); if (a.second >= h || b.second >= h) return; }
      if (!pos) { std::swap(x, y); std::swap(a, b); strict = !strict; }  // not(a<b) = b<=a
      if (strict) { if (b.second) refine(s, x, 0, b.second - 1); if (a.first < ~0ull) refine(s, y, a.first + 1, maskw(y->w)); }
      else { refine(s, x, 0, b.second); refine(s, y, a.first, maskw(y->w)); }
      return; }
    default: return;
  }
}
// Replaces symbols that the path condition fixes to one value.
static Expr* substRec(State& s, Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
  bool hit = false; for (u32 y : *e->syms) if (std::binary_search(s.pins.begin(), s.pins.end(), y)) { hit = true; break; }
  if (!hit) return e;
  if (e->op == E_SYM) return mkConst(s.rng[e->k].first, e->w);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr* a = e->a ? substRec(s, e->a, memo) : nullptr; Expr* b = e->b ? substRec(s, e->b, memo) : nullptr; Expr* c = e->c ? substRec(s, e->c, memo) : nullptr;
  Expr* r;
  switch (e->op) {
    case E_ZEXT: r = mkZext(a, e->w); break;
    case E_SEXT: r = mkSext(a, e->w); break;
    case E_EXTRACT: r = mkExtract(a, (unsigned)e->k, e->w); break;
    case E_CONCAT: r = mkConcat(a, b); break;
    case E_ITE: r = mkIte(a, b, c); break;
    default: r = mkBin(e->op, a, b); break;
  }
  memo[e] = r; return r;
}
static Expr* subst(State& s, Expr* e) { if (s.pins.empty() || isC(e)) return e; std::unordered_map<Expr*, Expr*> memo; return substRec(s, e, memo); }
// Adds a constraint known to hold under s.model or already checked.
static void addPC(State& s, Expr* c) {
  if (isC(c)) return;
  s.pc.push_back(c); learn(s, c, true);
  bool fresh = false;
  for (u32 y : *c->syms) if (y < s.rng.size() && s.rng[y].first == s.rng[y].second && !std::binary_search(s.pins.begin(), s.pins.end(), y)) { s.pins.insert(std::upper_bound(s.pins.begin(), s.pins.end(), y), y); fresh = true; }
  if (!fresh) return;
  std::vector<Expr*> pc; pc.swap(s.pc);
  for (auto* e : pc) { Expr* r = subst(s, e); if (!isC(r)) s.pc.push_back(r); }
}
static u64 evalS(State& s, Expr* e) { g_evalGen++; return evalE(e, s.model); }

// What interval reasoning closes is decided again by the solver (cached) unless --no-certify is given.
static bool g_certify = true; static u64 g_certified = 0;
static void certify(State& s, Expr* impossible) {
  if (!g_certify || isC(impossible)) return;
  QResult const& q = query(s.pc, impossible);
  if (q.sat == 1) { fprintf(stderr, "sx: interval reasoning and the solver disagree\n"); abort(); }
  if (q.sat == 0) g_certified++;
}
// Splits on a symbolic condition; the current state continues on the returned side, the other side (if
// feasible) is pushed and will re-execute the current instruction with the condition decided.
static bool decide(State& s, Expr* c) {
  c = subst(s, c);
  if (isC(c)) return c->k;
  if (c->undef) fail(s, "uninit", "branch on uninitialised data");
  { int t = truth(s, c); if (t >= 0) { g_rangeClosed++; certify(s, t ? mkNot(c) : c); return t; } }
  bool side = evalS(s, c) != 0;
  Expr* other = side ? mkNot(c) : c; Expr* mine = side ? c : mkNot(c);
  QResult const& q = query(s.pc, other);
  if (q.sat == -1) unsup("solver: unknown");
  if (q.sat == 1) {
    g_forks++;
    std::unique_ptr<State> n(new State(s)); n->counted = n->steps;
    applyModel(*n, q); addPC(*n, other);
    g_work.push_back(std::move(n));
    addPC(s, mine);
  }
  return side;
}
static u64 concretize(State& s, Val const& v, u8 w) {
  if (!v.e) return v.v;
  Expr* ve = subst(s, v.e); if (isC(ve)) return ve->k;
  if (ve->undef) fail(s, "uninit", "address, size or split value depends on uninitialised data");
  { Rng r = range(s, ve); if (r.first == r.second) { g_rangeClosed++; certify(s, mkNot(mkBin(E_EQ, ve, mkConst(r.first, w)))); return r.first; } }
  u64 val = evalS(s, ve);
  Expr* eq = mkBin(E_EQ, ve, mkConst(val, w));
  QResult const& q = query(s.pc, mkNot(eq));
  if (q.sat == -1) unsup("solver: unknown");
  if (q.sat == 1) {
    g_forks++;
    std::unique_ptr<State> n(new State(s)); n->counted = n->steps;
    applyModel(*n, q); addPC(*n, mkNot(eq));
    g_work.push_back(std::move(n));
    addPC(s, eq);
  }
  return val;
}
static void assumeE(State& s, Expr* c) {
  c = subst(s, c);
  if (isC(c)) { if (!c->k) { g_killed++; throw PathEnd{}; } return; }
  if (c->undef) fail(s, "uninit", "assume on uninitialised data");
  if (!evalS(s, c)) {
    QResult const& q = query(s.pc, c);
    if (q.sat == -1) unsup("solver: unknown");
    if (q.sat == 0) { g_killed++; throw PathEnd{}; }
    applyModel(s, q);
  }
  addPC(s, c);
}
// ---- memory access
struct Loc { Table* t; u32 id; u32 off; };
static std::string describe(u64 addr) { char b[64]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)addr); return b; }
static bool g_atomicAccess = false;
static Loc resolve(State& s, u64 addr, u64 n, bool write) {
  g_memChecks++;
  u64 region = addr >> 60; Table* t = region == 1 ? &s.mem : region == 2 ? &s.stack : nullptr;
  u32 hi = (u32)((addr >> 32) & 0x0fffffff);
  if (!t || hi == 0) fail(s, "memory", std::string(write ? "write" : "read") + (addr < 4096 ? " through a null pointer" : " through an invalid pointer"));
  Obj* o = t->get(hi - 1); u32 off = (u32)addr;
  if (o == FREED) fail(s, "memory", std::string(write ? "write to" : "read of") + " freed memory");
  if (!o) fail(s, "memory", "access outside any object");
  if (o->external) unsup("access to external global");
  if (n > o->size || (u64)off + n > o->size) fail(s, "memory", std::string(write ? "write" : "read") + " out of bounds (object of " + std::to_string(o->size) + " bytes, offset " + std::to_string((i32)off) + ")");
  if (write) {
    if (o->constant) fail(s, "memory", "write to constant memory");
    if (s.readonly && o->roMark && !g_atomicAccess) fail(s, "readonly", o->kind == K_HEAP ? "a read-only operation writes to memory of the container" : "a read-only operation writes to static data of the library");
  }
  return {t, hi - 1, off};
}
static Val loadV(State& s, u64 addr, u8 w) {
  u32 n = (w + 7) / 8; Loc l = resolve(s, addr, n, false); Obj* o = l.t->get(l.id);
  bool conc = true; for (u32 i = 0; i < n; i++) conc &= o->st[l.off + i] == 1;
  if (conc) { u64 v = 0; memcpy(&v, &o->data[l.off], n); return Val(v & maskw(w)); }
  bool allu = true; for (u32 i = 0; i < n; i++) allu &= o->st[l.off + i] == 0;
  if (allu) return Val::of(mkUndef(w));
  if (o->st[l.off] == 2) {  // whole expression?
    Expr* e = o->sym[l.off].e; bool ok = o->sym[l.off].idx == 0 && (e->w == w);
    for (u32 i = 1; ok && i < n; i++) ok = o->st[l.off + i] == 2 && o->sym[l.off + i].e == e && o->sym[l.off + i].idx == i;
    if (ok) return Val::of(e);
  }
  Expr* r = nullptr;
  for (u32 i = 0; i < n; i++) {
    Expr* b; u32 p = l.off + i;
    if (o->st[p] == 1) b = mkConst(o->data[p], 8);
    else if (o->st[p] == 0) b = mkUndef(8);
    else { Expr* e = o->sym[p].e; u32 lo = o->sym[p].idx * 8; u32 av = e->w - lo; b = av >= 8 ? mkExtract(e, lo, 8) : mkZext(mkExtract(e, lo, (u8)av), 8); }
    r = r ? mkConcat(b, r) : b;
  }
  if (r->w != w) r = mkExtract(r, 0, w);
  return Val::of(r);
}
static void storeV(State& s, u64 addr, Val const& v, u8 w) {
  u32 n = (w + 7) / 8; Loc l = resolve(s, addr, n, true); Obj* o = l.t->getW(l.id);
  if (!v.e) { u64 x = v.v & maskw(w); memcpy(&o->data[l.off], &x, n); memset(&o->st[l.off], 1, n); return; }
  if (v.e->op == E_UNDEF) { memset(&o->st[l.off], 0, n); return; }
  Expr* e = v.e;
  if (o->sym.empty()) o->sym.resize(o->size);
  for (u32 i = 0; i < n; i++) {
    u32 p = l.off + i;
    if (e->undef && n > 1) {  // keep byte precision for partly initialised words
      Expr* b = mkExtract(e, i * 8, 8);
      if (b->op == E_UNDEF) { o->st[p] = 0; continue; }
      if (isC(b)) { o->st[p] = 1; o->data[p] = (u8)b->k; continue; }
    }
    o->st[p] = 2; o->sym[p] = {e, i};
  }
}
static void copyMem(State& s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  Loc a = resolve(s, src, n, false); Loc b = resolve(s, dst, n, true);
  Obj* o = a.t->get(a.id);
  std::vector<u8> d(o->data.begin() + a.off, o->data.begin() + a.off + n), st(o->st.begin() + a.off, o->st.begin() + a.off + n);
  std::vector<SymByte> sy; if (!o->sym.empty()) sy.assign(o->sym.begin() + a.off, o->sym.begin() + a.off + n);
  Obj* q = b.t->getW(b.id);
  memcpy(&q->data[b.off], d.data(), n); memcpy(&q->st[b.off], st.data(), n);
  if (!sy.empty()) { if (q->sym.empty()) q->sym.resize(q->size); std::copy(sy.begin(), sy.end(), q->sym.begin() + b.off); }
}
static u64 allocMain(State& s, u32 size, Kind k, u8 tag) { auto* o = new Obj(size, k, 0); o->tag = tag; u32 id = s.mem.push(o); return R_MAIN | ((u64)(id + 1) << 32); }
static u64 allocStack(State& s, u32 size) { auto* o = new Obj(size, K_STACK, 0); u32 id = s.stack.push(o); return R_STACK | ((u64)(id + 1) << 32); }
static void freeHeap(State& s, u64 addr, u8 tag) {
  if (!addr) return;
  u32 hi = (u32)((addr >> 32) & 0x0fffffff);
  if ((addr >> 60) != 1 || hi == 0) fail(s, "memory", "release of an invalid pointer");
  Obj* o = s.mem.get(hi - 1);
  if (o == FREED) fail(s, "memory", "double release of a block");
  if (!o || o->kind != K_HEAP || (u32)addr != 0) fail(s, "memory", "release of a pointer that was not allocated");
  if (o->tag != tag) fail(s, "memory", "release with a function of another allocation family");
  if (s.readonly && o->roMark) fail(s, "readonly", "a read-only operation releases memory of the container");
  s.mem.kill(hi - 1); s.heapLive--;
}

// ---------------------------------------------------------------- decoding
static u8 widthOf(llvm::Type* t) {
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); if (b > 64) unsup("integer wider than 64 bits"); return (u8)b; }
  if (t->isPointerTy()) return 64;
  std::string n; llvm::raw_string_ostream os(n); t->print(os); unsup("type " + os.str());
}
static void flatten(llvm::Type* t, u32 off, std::vector<Part>& out) {
  if (auto* st = llvm::dyn_cast<llvm::StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + (u32)sl->getElementOffset(i), out);
  } else if (auto* at = llvm::dyn_cast<llvm::ArrayType>(t)) {
    u32 es = (u32)DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + (u32)i * es, out);
  } else out.push_back({off, widthOf(t)});
}
static u32 nparts(llvm::Type* t) { if (t->isVoidTy()) return 0; std::vector<Part> p; flatten(t, 0, p); return (u32)p.size(); }

static Func* getFunc(llvm::Function* F);
static void constVals(llvm::Constant* c, std::vector<Val>& out) {
  llvm::Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    if (llvm::isa<llvm::UndefValue>(c)) { std::vector<Part> p; flatten(t, 0, p); for (auto& x : p) out.push_back(Val::of(mkUndef(x.w))); return; }
    u64 n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (u64 i = 0; i < n; i++) constVals(c->getAggregateElement((unsigned)i), out);
    return;
  }
  if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(c)) { out.push_back(Val(ci->getZExtValue() & maskw(widthOf(t)))); return; }
  if (llvm::isa<llvm::ConstantPointerNull>(c)) { out.push_back(Val(0)); return; }
  if (llvm::isa<llvm::UndefValue>(c)) { out.push_back(Val::of(mkUndef(widthOf(t)))); return; }
  if (auto* g = llvm::dyn_cast<llvm::GlobalVariable>(c)) { out.push_back(Val(g_globals.at(g))); return; }
  if (auto* f = llvm::dyn_cast<llvm::Function>(c)) { out.push_back(Val(getFunc(f)->addr)); return; }
  if (auto* ga = llvm::dyn_cast<llvm::GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto* ce = llvm::dyn_cast<llvm::ConstantExpr>(c)) {
    std::vector<Val> x;
    switch (ce->getOpcode()) {
      case llvm::Instruction::GetElementPtr: {
        auto* gep = llvm::cast<llvm::GEPOperator>(ce); llvm::APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) unsup("constant gep");
        constVals(ce->getOperand(0), x); out.push_back(Val(x[0].v + off.getZExtValue())); return;
      }
      case llvm::Instruction::BitCast: case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::Trunc:
        constVals(ce->getOperand(0), x); out.push_back(Val(x[0].v & maskw(widthOf(t)))); return;
      case llvm::Instruction::Add: case llvm::Instruction::Sub: {
        constVals(ce->getOperand(0), x); constVals(ce->getOperand(1), x);
        out.push_back(Val((ce->getOpcode() == llvm::Instruction::Add ? x[0].v + x[1].v : x[0].v - x[1].v) & maskw(widthOf(t)))); return;
      }
      default: unsup("constant expression");
    }
  }
  unsup("constant kind");
}
enum Intr {
  X_NONE, X_NOP, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_MEMCMP, X_NEW, X_NEWARR, X_DELETE, X_DELETEARR, X_MALLOC, X_FREE, X_CXA_ALLOC, X_CXA_FREE, X_CXA_THROW,
  X_CXA_BEGIN, X_CXA_END, X_CXA_RETHROW, X_TYPEID, X_TERMINATE, X_ABORT, X_EXC_CTOR, X_UMAX, X_UMIN, X_SMAX, X_SMIN,
  X_UADDSAT, X_USUBSAT, X_UADDO, X_USUBO, X_UMULO, X_SADDO, X_SSUBO, X_SMULO, X_ABS, X_CTPOP, X_CTLZ, X_CTTZ, X_BSWAP, X_FSHL, X_FSHR, X_EXPECT, X_ASSUME, X_ISCONST, X_OBJSIZE,
  X_THROW_STD, X_NEW_NOTHROW, X_STACKSAVE, X_GUARD, X_GUARDSET,
  S_SYM, S_RANGE, S_BOOL, S_ASSUME, S_CHECK, S_SPLIT, S_COVER, S_PARAM, S_GSET, S_GGET, S_READONLY, S_HEAPLIVE, S_ISSYM, S_NOTE, S_SIZE, S_TRACE, S_WORK
};
static int intrinsicOf(llvm::Function* F) {
  std::string n = F->getName().str();
  auto starts = [&](char const* p) { return n.rfind(p, 0) == 0; };
  if (starts("llvm.")) {
    if (starts("llvm.lifetime") || starts("llvm.dbg") || starts("llvm.experimental.noalias") || starts("llvm.invariant") || starts("llvm.donothing") || starts("llvm.stackrestore") || starts("llvm.prefetch")) return X_NOP;
    if (starts("llvm.memcpy")) return X_MEMCPY; if (starts("llvm.memmove")) return X_MEMMOVE;
    if (starts("llvm.memset")) return X_MEMSET;
    if (starts("llvm.eh.typeid.for")) return X_TYPEID;
    if (starts("llvm.umax")) return X_UMAX; if (starts("llvm.umin")) return X_UMIN;
    if (starts("llvm.smax")) return X_SMAX; if (starts("llvm.smin")) return X_SMIN;
    if (starts("llvm.uadd.sat")) return X_UADDSAT; if (starts("llvm.usub.sat")) return X_USUBSAT;
    if (starts("llvm.uadd.with")) return X_UADDO; if (starts("llvm.usub.with")) return X_USUBO; if (starts("llvm.umul.with")) return X_UMULO;
    if (starts("llvm.sadd.with")) return X_SADDO; if (starts("llvm.ssub.with")) return X_SSUBO; if (starts("llvm.smul.with")) return X_SMULO;
    if (starts("llvm.abs")) return X_ABS; if (starts("llvm.ctpop")) return X_CTPOP; if (starts("llvm.ctlz")) return X_CTLZ; if (starts("llvm.cttz")) return X_CTTZ;
    if (starts("llvm.bswap")) return X_BSWAP;
    if (starts("llvm.fshl")) return X_FSHL; if (starts("llvm.fshr")) return X_FSHR;
    if (starts("llvm.expect")) return X_EXPECT; if (starts("llvm.assume")) return X_ASSUME;
    if (starts("llvm.is.constant")) return X_ISCONST; if (starts("llvm.objectsize")) return X_OBJSIZE;
    if (starts("llvm.stacksave")) return X_STACKSAVE;
    if (starts("llvm.trap") || starts("llvm.ubsantrap")) return X_ABORT;
    return X_NONE;
  }
  static std::map<std::string, int> const t = {
      {"memcpy", X_MEMCPY}, {"memmove", X_MEMMOVE}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP},
      {"_Znwm", X_NEW}, {"_Znam", X_NEWARR}, {"_ZnwmRKSt9nothrow_t", X_NEW_NOTHROW}, {"_ZdlPv", X_DELETE}, {"_ZdlPvm", X_DELETE}, {"_ZdlPvRKSt9nothrow_t", X_DELETE}, {"_ZdaPv", X_DELETEARR}, {"_ZdaPvm", X_DELETEARR},
      {"malloc", X_MALLOC}, {"free", X_FREE}, {"__cxa_allocate_exception", X_CXA_ALLOC}, {"__cxa_free_exception", X_CXA_FREE},
      {"__cxa_throw", X_CXA_THROW}, {"__cxa_begin_catch", X_CXA_BEGIN}, {"__cxa_end_catch", X_CXA_END}, {"__cxa_rethrow", X_CXA_RETHROW},
      {"_ZSt9terminatev", X_TERMINATE}, {"__clang_call_terminate", X_TERMINATE}, {"abort", X_ABORT}, {"__cxa_pure_virtual", X_ABORT}, {"__assert_fail", X_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_ABORT},
      {"_ZNSt12out_of_rangeC1EPKc", X_EXC_CTOR}, {"_ZNSt12out_of_rangeC2EPKc", X_EXC_CTOR}, {"_ZNSt12out_of_rangeD1Ev", X_NOP}, {"_ZNSt11logic_errorC1EPKc", X_EXC_CTOR}, {"_ZNSt12length_errorC1EPKc", X_EXC_CTOR}, {"_ZNSt12length_errorD1Ev", X_NOP},
      {"_ZNSt12out_of_rangeD2Ev", X_NOP}, {"_ZNSt13runtime_errorC1EPKc", X_EXC_CTOR}, {"_ZNSt13runtime_errorD1Ev", X_NOP}, {"_ZNSt11logic_errorD1Ev", X_NOP}, {"_ZNSt11logic_errorD2Ev", X_NOP},
      {"_ZSt17__throw_bad_allocv", X_THROW_STD}, {"_ZSt28__throw_bad_array_new_lengthv", X_THROW_STD}, {"_ZSt20__throw_length_errorPKc", X_THROW_STD}, {"_ZSt20__throw_out_of_rangePKc", X_THROW_STD}, {"_ZSt24__throw_out_of_range_fmtPKcz", X_THROW_STD}, {"_ZSt19__throw_logic_errorPKc", X_THROW_STD},
      {"__cxa_atexit", X_NOP}, {"__cxa_guard_acquire", X_GUARD}, {"__cxa_guard_release", X_GUARDSET}, {"__cxa_guard_abort", X_NOP},
      {"_ZSt24__throw_invalid_argumentPKc", X_THROW_STD}, {"_ZSt25__throw_bad_function_callv", X_THROW_STD}, {"_ZSt17__throw_bad_castv", X_THROW_STD}, {"_ZSt19__throw_range_errorPKc", X_THROW_STD},
      {"_ZNSt16invalid_argumentC1EPKc", X_EXC_CTOR}, {"_ZNSt16invalid_argumentD1Ev", X_NOP}, {"_ZNSt9exceptionD2Ev", X_NOP}, {"_ZNSt9bad_allocD1Ev", X_NOP}, {"_ZNSt9bad_allocD2Ev", X_NOP},
      {"sx_sym", S_SYM}, {"sx_range", S_RANGE}, {"sx_bool", S_BOOL}, {"sx_assume", S_ASSUME}, {"sx_check", S_CHECK}, {"sx_split", S_SPLIT},
      {"sx_cover", S_COVER}, {"sx_param", S_PARAM}, {"sx_gset", S_GSET}, {"sx_gget", S_GGET}, {"sx_readonly", S_READONLY}, {"sx_heap_live", S_HEAPLIVE}, {"sx_is_symbolic", S_ISSYM}, {"sx_note", S_NOTE}, {"sx_block_size", S_SIZE}, {"sx_trace", S_TRACE}, {"sx_work", S_WORK}};
  auto it = t.find(n);
  return it == t.end() ? X_NONE : it->second;
}
static Func* getFunc(llvm::Function* F) {
  auto it = g_funcs.find(F);
  if (it != g_funcs.end()) return it->second;
  auto* f = new Func; f->F = F; f->name = F->getName().str(); f->dem = llvm::demangle(f->name);
  f->isSeq = f->dem.find("segmented_tree") != std::string::npos;
  f->addr = R_FUNC | ((u64)(g_funcList.size() + 1) << 8); g_funcList.push_back(f); g_funcs[F] = f;
  f->ext = intrinsicOf(F);
  return f;
}
static std::vector<Part>* partsOf(llvm::Type* t) { auto* p = new std::vector<Part>; flatten(t, 0, *p); return p; }

static void decode(Func* f) {
  using namespace llvm;
  f->decoded = true;
  Function& F = *f->F;
  std::unordered_map<Value const*, i32> slot; u32 n = 0;
  for (auto& A : F.args()) { slot[&A] = (i32)n; n += nparts(A.getType()); }
  f->nparam = n;
  for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = (i32)n; try { n += nparts(I.getType()); } catch (Unsupported&) { n += 1; } }
  f->nregs = n;
  std::unordered_map<Constant*, i32> cmap;
  auto opnd = [&](Value* v) -> i32 {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cmap.find(c); if (it != cmap.end()) return it->second;
      std::vector<Val> x; constVals(c, x);
      // consts are addressed by ~index and grow downwards: element j of an aggregate is at ~(index + j)
      i32 id = ~(i32)f->consts.size(); for (auto& y : x) f->consts.push_back(y);
      cmap[c] = id; return id;
    }
    auto it = slot.find(v); if (it == slot.end()) unsup("operand"); return it->second;
  };
  auto plus = [](i32 o, u32 j) -> i32 { return o >= 0 ? o + (i32)j : ~(~o + (i32)j); };
  std::unordered_map<BasicBlock const*, u32> start; u32 pc = 0;
  auto skip = [](Instruction& I) {
    if (isa<PHINode>(I)) return true;
    if (isa<DbgInfoIntrinsic>(I)) return true;
    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); return id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl; }
    return false;
  };
  for (auto& B : F) { start[&B] = pc; for (auto& I : B) if (!skip(I)) pc++; }
  auto edge = [&](BasicBlock* from, BasicBlock* to) {
    Edge e; e.target = start[to];
    for (auto& P : to->phis()) { u32 np = nparts(P.getType()); i32 s = opnd(P.getIncomingValueForBlock(from)); for (u32 j = 0; j < np; j++) e.copies.emplace_back(slot[&P] + (i32)j, plus(s, j)); }
    return e;
  };
  for (auto& B : F) for (auto& I : B) {
    if (skip(I)) continue;
    Ins x{}; x.op = I_UNSUP; x.dst = -1; x.loc = I.getDebugLoc().get();
    if (!I.getType()->isVoidTy()) x.dst = slot[&I];
    try {
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        static const std::map<unsigned, u8> m = {{Instruction::Add, I_ADD}, {Instruction::Sub, I_SUB}, {Instruction::Mul, I_MUL}, {Instruction::UDiv, I_UDIV}, {Instruction::SDiv, I_SDIV}, {Instruction::URem, I_UREM}, {Instruction::SRem, I_SREM}, {Instruction::And, I_AND}, {Instruction::Or, I_OR}, {Instruction::Xor, I_XOR}, {Instruction::Shl, I_SHL}, {Instruction::LShr, I_LSHR}, {Instruction::AShr, I_ASHR}};
        x.w = widthOf(bo->getType()); x.a = opnd(bo->getOperand(0)); x.b = opnd(bo->getOperand(1));
        auto it = m.find(bo->getOpcode()); if (it == m.end()) unsup("float op"); x.op = it->second;
      } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
        static const std::map<unsigned, u8> m = {{CmpInst::ICMP_EQ, I_EQ}, {CmpInst::ICMP_NE, I_NE}, {CmpInst::ICMP_UGT, I_UGT}, {CmpInst::ICMP_UGE, I_UGE}, {CmpInst::ICMP_ULT, I_ULT}, {CmpInst::ICMP_ULE, I_ULE}, {CmpInst::ICMP_SGT, I_SGT}, {CmpInst::ICMP_SGE, I_SGE}, {CmpInst::ICMP_SLT, I_SLT}, {CmpInst::ICMP_SLE, I_SLE}};
        x.w = widthOf(ic->getOperand(0)->getType()); x.a = opnd(ic->getOperand(0)); x.b = opnd(ic->getOperand(1)); x.op = m.at(ic->getPredicate());
      } else if (auto* ci = dyn_cast<CastInst>(&I)) {
        x.w = widthOf(ci->getType()); x.w2 = widthOf(ci->getSrcTy()); x.a = opnd(ci->getOperand(0));
        switch (ci->getOpcode()) {
          case Instruction::ZExt: x.op = I_ZEXT; break;
          case Instruction::SExt: x.op = I_SEXT; break;
          case Instruction::Trunc: x.op = I_TRUNC; break;
          case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
            x.op = x.w == x.w2 ? I_MOV : x.w > x.w2 ? I_ZEXT : I_TRUNC; x.n = 1; break;
          default: unsup("cast");
        }
      } else if (auto* ge = dyn_cast<GetElementPtrInst>(&I)) {
        x.op = I_GEP; x.a = opnd(ge->getPointerOperand()); auto* gi = new GepInfo; u64 k = 0;
        for (auto gt = gep_type_begin(ge), e = gep_type_end(ge); gt != e; ++gt) {
          Value* ix = gt.getOperand();
          if (auto* st = gt.getStructTypeOrNull()) { k += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(gt.getIndexedType());
          if (auto* c = dyn_cast<ConstantInt>(ix)) k += (u64)c->getSExtValue() * sz;
          else { gi->idx.emplace_back(opnd(ix), sz); gi->w.push_back(widthOf(ix->getType())); }
        }
        x.k = k; if (gi->idx.empty()) { delete gi; gi = nullptr; } x.p = gi;
      } else if (auto* li = dyn_cast<LoadInst>(&I)) {
        x.op = I_LOAD; x.a = opnd(li->getPointerOperand());
        if (li->getType()->isAggregateType()) x.p = partsOf(li->getType()); else x.w = widthOf(li->getType());
      } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
        x.op = I_ARMW; x.a = opnd(rm->getPointerOperand()); x.b = opnd(rm->getValOperand()); x.w = widthOf(rm->getType());
        switch (rm->getOperation()) { case AtomicRMWInst::Xchg: x.k = 0; break; case AtomicRMWInst::Add: x.k = I_ADD; break; case AtomicRMWInst::Sub: x.k = I_SUB; break; case AtomicRMWInst::And: x.k = I_AND; break; case AtomicRMWInst::Or: x.k = I_OR; break; case AtomicRMWInst::Xor: x.k = I_XOR; break; default: unsup("atomic operation"); }
      } else if (auto* si = dyn_cast<StoreInst>(&I)) {
        x.op = I_STORE; x.k = si->isAtomic(); x.a = opnd(si->getPointerOperand()); x.b = opnd(si->getValueOperand());
        if (si->getValueOperand()->getType()->isAggregateType()) x.p = partsOf(si->getValueOperand()->getType()); else x.w = widthOf(si->getValueOperand()->getType());
      } else if (auto* ai = dyn_cast<AllocaInst>(&I)) {
        x.op = I_ALLOCA; auto* c = dyn_cast<ConstantInt>(ai->getArraySize()); if (!c) unsup("dynamic alloca");
        x.k = DL->getTypeAllocSize(ai->getAllocatedType()) * c->getZExtValue();
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { x.op = I_BR; x.p = new Edge(edge(&B, br->getSuccessor(0))); }
        else { x.op = I_CONDBR; x.a = opnd(br->getCondition()); x.p = new BrInfo{edge(&B, br->getSuccessor(0)), edge(&B, br->getSuccessor(1))}; }
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        x.op = I_SWITCH; x.a = opnd(sw->getCondition()); x.w = widthOf(sw->getCondition()->getType());
        auto* s = new SwitchInfo; s->def = edge(&B, sw->getDefaultDest());
        for (auto& c : sw->cases()) s->cases.emplace_back(c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor()));
        x.p = s;
      } else if (auto* rt = dyn_cast<ReturnInst>(&I)) {
        x.op = I_RET; if (rt->getReturnValue()) { x.a = opnd(rt->getReturnValue()); x.k = nparts(rt->getReturnValue()->getType()); }
      } else if (auto* se = dyn_cast<SelectInst>(&I)) {
        x.op = I_SELECT; x.a = opnd(se->getCondition()); x.b = opnd(se->getTrueValue()); x.c = opnd(se->getFalseValue()); x.w = widthOf(se->getType());
      } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
        Type* t = ev->getAggregateOperand()->getType(); u32 off = 0;
        for (unsigned ix : ev->indices()) { for (unsigned j = 0; j < ix; j++) off += nparts(isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType()); t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType(); }
        x.op = I_MOV; x.n = (u8)nparts(t); x.a = plus(opnd(ev->getAggregateOperand()), off);
      } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
        Type* t = iv->getAggregateOperand()->getType(); u32 off = 0, all = nparts(t);
        for (unsigned ix : iv->indices()) { for (unsigned j = 0; j < ix; j++) off += nparts(isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType()); t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType(); }
        auto* e = new Edge; i32 ag = opnd(iv->getAggregateOperand()), v = opnd(iv->getInsertedValueOperand()); u32 nn = nparts(t);
        for (u32 j = 0; j < all; j++) e->copies.emplace_back(slot[&I] + (i32)j, (j >= off && j < off + nn) ? plus(v, j - off) : plus(ag, j));
        x.op = I_MOV; x.n = 0; x.p = e;
      } else if (auto* fr = dyn_cast<FreezeInst>(&I)) {
        x.op = I_FREEZE; x.a = opnd(fr->getOperand(0)); x.w = widthOf(fr->getType());
      } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
        x.op = I_LANDINGPAD; auto* l = new LpInfo; l->cleanup = lp->isCleanup();
        for (unsigned j = 0; j < lp->getNumClauses(); j++) {
          if (lp->isCatch(j)) { std::vector<Val> v; constVals(lp->getClause(j), v); l->catches.push_back(v[0].v); l->isFilter.push_back(false); }
          else { l->catches.push_back(0); l->isFilter.push_back(true); }
        }
        x.p = l;
      } else if (auto* rs = dyn_cast<ResumeInst>(&I)) { x.op = I_RESUME; x.a = opnd(rs->getValue()); }
      else if (isa<UnreachableInst>(I)) x.op = I_UNREACHABLE;
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
        auto* c = new CallInfo; x.p = c; x.op = isa<InvokeInst>(I) ? I_INVOKE : I_CALL;
        if (cb->isInlineAsm()) unsup("inline asm");
        Value* callee = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
        if (auto* fn = dyn_cast<Function>(callee)) { c->f = getFunc(fn); c->intr = c->f->ext; } else c->fp = opnd(cb->getCalledOperand());
        c->nret = nparts(cb->getType()); if (c->nret == 1) { std::vector<Part> p; flatten(cb->getType(), 0, p); c->retw = p[0].w; }
        for (unsigned j = 0; j < cb->arg_size(); j++) {
          Value* av = cb->getArgOperand(j);
          if (av->getType()->isMetadataTy()) continue;
          u64 bv = 0; if (cb->isByValArgument(j)) bv = DL->getTypeAllocSize(cb->getParamByValType(j));
          std::vector<Part> ps; flatten(av->getType(), 0, ps); i32 o = opnd(av);
          for (u32 k = 0; k < ps.size(); k++) { c->args.push_back(plus(o, k)); c->byval.push_back(k == 0 ? bv : 0); c->argw.push_back(ps[k].w); }
        }
        if (auto* in = dyn_cast<InvokeInst>(&I)) { c->normal = edge(&B, in->getNormalDest()); c->unwind = edge(&B, in->getUnwindDest()); }
      }
    } catch (Unsupported& u) { x.op = I_UNSUP; x.p = new std::string(u.what + " in " + f->dem.substr(0, 200)); }
    f->code.push_back(x);
  }
}

// ---------------------------------------------------------------- interpreter
static inline Val rd(State& s, Frame& f, i32 o) { return o >= 0 ? s.regs[f.base + (u32)o] : f.f->consts[(u32)~o]; }
static void takeEdge(State& s, Frame& f, Edge const& e) {
  s.work++;
  if (e.copies.size() == 1) s.regs[f.base + (u32)e.copies[0].first] = rd(s, f, e.copies[0].second);
  else if (!e.copies.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto& c : e.copies) tmp.push_back(rd(s, f, c.second));
    for (size_t i = 0; i < e.copies.size(); i++) s.regs[f.base + (u32)e.copies[i].first] = tmp[i];
  }
  f.pc = e.target;
}
static Val binop(State& s, u8 op, Val const& a, Val const& b, u8 w) {
  u64 m = maskw(w);
  if (!a.e && !b.e) {
    switch (op) {
      case I_ADD: return Val((a.v + b.v) & m);
      case I_SUB: return Val((a.v - b.v) & m);
      case I_MUL: return Val((a.v * b.v) & m);
      case I_AND: return Val(a.v & b.v);
      case I_OR: return Val(a.v | b.v);
      case I_XOR: return Val(a.v ^ b.v);
      case I_SHL: if (b.v >= w) return Val::of(mkUndef(w)); return Val((a.v << b.v) & m);
      case I_LSHR: if (b.v >= w) return Val::of(mkUndef(w)); return Val(a.v >> b.v);
      case I_ASHR: if (b.v >= w) return Val::of(mkUndef(w)); return Val((u64)(sextw(a.v, w) >> b.v) & m);
      case I_UDIV: if (!b.v) fail(s, "arith", "division by zero"); return Val(a.v / b.v);
      case I_UREM: if (!b.v) fail(s, "arith", "division by zero"); return Val(a.v % b.v);
      case I_SDIV: if (!b.v) fail(s, "arith", "division by zero"); if (sextw(b.v, w) == -1) return Val((0 - a.v) & m); return Val((u64)(sextw(a.v, w) / sextw(b.v, w)) & m);
      case I_SREM: if (!b.v) fail(s, "arith", "division by zero"); if (sextw(b.v, w) == -1) return Val(0); return Val((u64)(sextw(a.v, w) % sextw(b.v, w)) & m);
      case I_EQ: return Val(a.v == b.v);
      case I_NE: return Val(a.v != b.v);
      case I_UGT: return Val(a.v > b.v);
      case I_UGE: return Val(a.v >= b.v);
      case I_ULT: return Val(a.v < b.v);
      case I_ULE: return Val(a.v <= b.v);
      case I_SGT: return Val(sextw(a.v, w) > sextw(b.v, w));
      case I_SGE: return Val(sextw(a.v, w) >= sextw(b.v, w));
      case I_SLT: return Val(sextw(a.v, w) < sextw(b.v, w));
      case I_SLE: return Val(sextw(a.v, w) <= sextw(b.v, w));
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (op) {
    case I_ADD: return Val::of(mkBin(E_ADD, x, y));
    case I_SUB: return Val::of(mkSub(x, y));
    case I_MUL: return Val::of(mkBin(E_MUL, x, y));
    case I_AND: return Val::of(mkBin(E_AND, x, y));
    case I_OR: return Val::of(mkBin(E_OR, x, y));
    case I_XOR: return Val::of(mkBin(E_XOR, x, y));
    case I_SHL: return Val::of(mkBin(E_SHL, x, y));
    case I_LSHR: return Val::of(mkBin(E_LSHR, x, y));
    case I_ASHR: return Val::of(mkBin(E_ASHR, x, y));
    case I_UDIV: case I_UREM: case I_SDIV: case I_SREM:
      if (decide(s, mkBin(E_EQ, y, mkConst(0, w)))) fail(s, "arith", "division by zero");
      return Val::of(mkBin(op == I_UDIV ? E_UDIV : op == I_UREM ? E_UREM : op == I_SDIV ? E_SDIV : E_SREM, x, y));
    case I_EQ: return Val::of(mkBin(E_EQ, x, y));
    case I_NE: return Val::of(mkNot(mkBin(E_EQ, x, y)));
    case I_UGT: return Val::of(mkBin(E_ULT, y, x));
    case I_UGE: return Val::of(mkBin(E_ULE, y, x));
    case I_ULT: return Val::of(mkBin(E_ULT, x, y));
    case I_ULE: return Val::of(mkBin(E_ULE, x, y));
    case I_SGT: return Val::of(mkBin(E_SLT, y, x));
    case I_SGE: return Val::of(mkBin(E_SLE, y, x));
    case I_SLT: return Val::of(mkBin(E_SLT, x, y));
    case I_SLE: return Val::of(mkBin(E_SLE, x, y));
  }
  abort();
}
static std::string cstr(State& s, u64 addr) {
  std::string r;
  for (int i = 0; i < 300; i++) { Val v = loadV(s, addr + (u64)i, 8); if (v.e || !v.v) break; r += (char)v.v; }
  return r;
}
static Expr* newSym(State& s, std::string const& name, u8 w) {
  u32 id = s.nsym++;
  // a symbol is identified by its ordinal on the path and its width: shared between paths
  static std::map<std::pair<u32, u8>, u32> ids;
  auto it = ids.find({id, w}); u32 gid;
  if (it == ids.end()) { gid = (u32)g_symW.size(); ids[{id, w}] = gid; g_symW.push_back(w); } else gid = it->second;
  if (s.model.size() <= gid) s.model.resize(gid + 1, 0);
  s.model[gid] = 0;
  while (s.rng.size() <= gid) s.rng.emplace_back(0, ~0ull);
  s.rng[gid] = Rng(0, maskw(w));
  Expr* e = raw(E_SYM, w, gid);
  return e;
}
static bool typeMatches(State& s, u64 thrown, u64 want) {
  if (thrown == want) return true;
  static std::map<std::string, std::string> const base = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}};
  auto a = g_typeinfoNames.find(thrown), b = g_typeinfoNames.find(want);
  if (a != g_typeinfoNames.end() && b != g_typeinfoNames.end()) {
    std::string n = a->second;
    while (true) { if (n == b->second) return true; auto it = base.find(n); if (it == base.end()) break; n = it->second; }
  }
  // single-inheritance typeinfo defined in the module: {vptr, name, base}
  u32 hi = (u32)((thrown >> 32) & 0x0fffffff); Obj* o = (thrown >> 60) == 1 && hi ? s.mem.get(hi - 1) : nullptr;
  if (o && o != FREED && !o->external && o->size == 24) { Val bp = loadV(s, thrown + 16, 64); if (!bp.e && bp.v) return typeMatches(s, bp.v, want); }
  return false;
}
static u64 typeId(u64 ti) { return ti ? ((ti >> 32) & 0x7fffff) + 1 : 0x7fffff; }

static void popFrame(State& s) { Frame& f = s.fr.back(); s.stack.popTo(f.stackMark); s.regs.resize(f.base); s.fr.pop_back(); }
// Unwinds from the current position (the top frame's pc is at the throwing call).
static void unwind(State& s, Exc ex) {
  // search phase
  bool found = false;
  for (int i = (int)s.fr.size() - 1; i >= 0 && !found; i--) {
    Frame& f = s.fr[i]; Ins& I = f.f->code[f.pc];
    if (I.op != I_INVOKE) { if (f.f->F->doesNotThrow()) break; continue; }
    Ins& L = f.f->code[((CallInfo*)I.p)->unwind.target]; if (L.op != I_LANDINGPAD) unsup("landing pad shape");
    LpInfo* l = (LpInfo*)L.p;
    for (size_t j = 0; j < l->catches.size(); j++) if (l->isFilter[j] || l->catches[j] == 0 || typeMatches(s, ex.tinfo, l->catches[j])) found = true;
  }
  if (!found) fail(s, "terminate", "exception escapes (std::terminate)");
  while (!s.fr.empty()) {
    Frame& f = s.fr.back(); Ins& I = f.f->code[f.pc];
    if (I.op == I_INVOKE) {
      CallInfo* c = (CallInfo*)I.p; Ins& L = f.f->code[c->unwind.target]; LpInfo* l = (LpInfo*)L.p;
      u64 sel = 0; bool enter = l->cleanup;
      for (size_t j = 0; j < l->catches.size(); j++) {
        if (l->isFilter[j]) fail(s, "terminate", "exception specification violated");
        if (l->catches[j] == 0 || typeMatches(s, ex.tinfo, l->catches[j])) { sel = typeId(l->catches[j]); enter = true; break; }
      }
      if (enter) { s.cur = ex; takeEdge(s, f, c->unwind); s.regs[f.base + (u32)L.dst] = Val(ex.ptr); s.regs[f.base + (u32)L.dst + 1] = Val(sel); return; }
    }
    popFrame(s);
    if (!s.fr.empty()) { /* the caller's pc still points at its call */ }
  }
  fail(s, "terminate", "exception escapes the entry function");
}
static void pushCall(State& s, Func* fn, std::vector<Val> const& args, CallInfo* ci, i32 dst, u32 nret) {
  if (!fn->decoded) decode(fn);
  if (s.fr.size() > 400) fail(s, "stack", "call depth exceeds 400");
  Frame nf; nf.f = fn; nf.base = (u32)s.regs.size(); nf.pc = 0; nf.stackMark = s.stack.n; nf.dst = dst; nf.nret = nret; nf.ci = ci;
  s.regs.resize(nf.base + fn->nregs);
  u32 n = std::min<u32>(fn->nparam, (u32)args.size());
  for (u32 i = 0; i < n; i++) s.regs[nf.base + i] = args[i];
  if (ci) for (u32 i = 0; i < n; i++) if (ci->byval[i]) { u64 a = allocStack(s, (u32)ci->byval[i]); copyMem(s, a, args[i].v, ci->byval[i]); s.regs[nf.base + i] = Val(a); }
  fn->hits++;
  s.fr.push_back(nf); s.work++;
}
static std::string g_curCheck;
static void doCheck(State& s, Val c, std::string const& msg) {
  if (c.e) { Expr* e = subst(s, c.e); c = isC(e) ? Val(e->k) : Val::of(e); }
  if (!c.e) { g_assertTrivial++; if (!c.v) fail(s, "assert", msg); return; }
  if (c.e->undef) fail(s, "uninit", "checked value depends on uninitialised data: " + msg);
  if (truth(s, c.e) == 1) { g_rangeClosed++; if (g_certify) g_assertQ++; else g_assertTrivial++; certify(s, mkNot(c.e)); return; }
  g_assertQ++;
  Expr* bad = mkNot(c.e);
  if (evalS(s, bad)) { report(s, "assert", msg, s.model); assumeE(s, c.e); return; }
  QResult const& q = query(s.pc, bad);
  if (q.sat == -1) unsup("solver: unknown on " + msg);
  if (q.sat == 1) { auto m = s.model; for (auto& p : q.model) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; } report(s, "assert", msg, m); addPC(s, c.e); }
}

static double g_deadline = 1e18;
static u64 g_maxSteps = 40000000;
static bool g_stop = false; static std::string g_stopWhy;

// executes an external / intrinsic call; returns true when pc was already moved
static bool doIntr(State& s, Frame& f, Ins& I, CallInfo* c) {
  auto A = [&](u32 i) { return rd(s, f, c->args[i]); };
  auto CA = [&](u32 i) { return concretize(s, rd(s, f, c->args[i]), c->argw[i]); };
  auto ret = [&](Val v) { if (I.dst >= 0) s.regs[f.base + (u32)I.dst] = v; };
  u8 w = c->argw.empty() ? 0 : c->argw[0];
  switch (c->intr) {
    case X_NOP: if (I.dst >= 0) ret(Val(0)); return false;
    case X_STACKSAVE: ret(Val(0)); return false;
    case X_MEMCPY: case X_MEMMOVE: { u64 n = CA(2); u64 d = n ? CA(0) : 0, sr = n ? CA(1) : 0; if (n && c->intr == X_MEMCPY && d != sr && d < sr + n && sr < d + n) fail(s, "memory", "memcpy between overlapping blocks"); if (n) copyMem(s, d, sr, n); if (I.dst >= 0) ret(A(0)); return false; }
    case X_MEMSET: { u64 n = CA(2), d = CA(0); Val v = A(1); for (u64 i = 0; i < n; i++) storeV(s, d + i, v.e ? Val::of(mkExtract(v.e, 0, 8)) : Val(v.v & 255), 8); if (I.dst >= 0) ret(Val(d)); return false; }
    case X_MEMCMP: {
      u64 n = CA(2), a = CA(0), b = CA(1); Expr* r = mkConst(0, 32);
      for (u64 i = n; i-- > 0;) { Expr* x = toE(loadV(s, a + i, 8), 8); Expr* y = toE(loadV(s, b + i, 8), 8); r = mkIte(mkBin(E_EQ, x, y), r, mkIte(mkBin(E_ULT, x, y), mkConst(~0ull, 32), mkConst(1, 32))); }
      ret(Val::of(r)); return false; }
    case X_NEW: case X_NEWARR: case X_MALLOC: case X_NEW_NOTHROW: {
      u64 n = CA(0); if (n > (256u << 20)) unsup("allocation of more than 256 MB");
      u8 tag = c->intr == X_NEWARR ? 2 : c->intr == X_MALLOC ? 3 : 1;
      u64 a = allocMain(s, (u32)n, K_HEAP, tag); s.heapLive++; ret(Val(a)); return false; }
    case X_DELETE: freeHeap(s, CA(0), 1); return false;
    case X_DELETEARR: freeHeap(s, CA(0), 2); return false;
    case X_FREE: freeHeap(s, CA(0), 3); return false;
    case X_CXA_ALLOC: { u64 n = CA(0); ret(Val(allocMain(s, (u32)std::max<u64>(n, 8), K_EXC, 9))); return false; }
    case X_CXA_FREE: return false;
    case X_CXA_THROW: { Exc e; e.ptr = CA(0); e.tinfo = CA(1); s.excInfo.push_back(e); unwind(s, e); return true; }
    case X_THROW_STD: { Exc e; e.ptr = allocMain(s, 16, K_EXC, 9); e.tinfo = 0; s.excInfo.push_back(e); unwind(s, e); return true; }
    case X_CXA_BEGIN: { u64 p = CA(0); Exc e = s.cur; for (auto& x : s.excInfo) if (x.ptr == p) e = x; s.caught.push_back(e); ret(Val(p)); return false; }
    case X_CXA_END: if (!s.caught.empty()) s.caught.pop_back(); return false;
    case X_CXA_RETHROW: { if (s.caught.empty()) fail(s, "terminate", "rethrow without exception"); Exc e = s.caught.back(); unwind(s, e); return true; }
    case X_TYPEID: { ret(Val(typeId(CA(0)))); return false; }
    case X_TERMINATE: fail(s, "terminate", "std::terminate called");
    case X_ABORT: fail(s, "terminate", "abort called");
    case X_EXC_CTOR: return false;
    case X_UMAX: case X_UMIN: case X_SMAX: case X_SMIN: {
      Val a = A(0), b = A(1); u8 op = c->intr == X_UMAX ? I_UGT : c->intr == X_UMIN ? I_ULT : c->intr == X_SMAX ? I_SGT : I_SLT;
      Val t = binop(s, op, a, b, w); if (!t.e) ret(t.v ? a : b); else ret(Val::of(mkIte(t.e, toE(a, w), toE(b, w)))); return false; }
    case X_UADDSAT: { Val a = A(0), b = A(1), t = binop(s, I_ADD, a, b, w), o = binop(s, I_ULT, t, a, w); ret(Val::of(mkIte(toE(o, 1), mkConst(~0ull, w), toE(t, w)))); return false; }
    case X_USUBSAT: { Val a = A(0), b = A(1), t = binop(s, I_SUB, a, b, w), o = binop(s, I_ULT, a, b, w); ret(Val::of(mkIte(toE(o, 1), mkConst(0, w), toE(t, w)))); return false; }
    case X_UADDO: case X_USUBO: {
      Val a = A(0), b = A(1), t = binop(s, c->intr == X_UADDO ? I_ADD : I_SUB, a, b, w), o = c->intr == X_UADDO ? binop(s, I_ULT, t, a, w) : binop(s, I_ULT, a, b, w);
      s.regs[f.base + (u32)I.dst] = t; s.regs[f.base + (u32)I.dst + 1] = o; return false; }
    case X_UMULO: {
      Val a = A(0), b = A(1); if (a.e || b.e) { if (a.e) a = Val(concretize(s, a, w)); if (b.e) b = Val(concretize(s, b, w)); }
      unsigned __int128 p = (unsigned __int128)a.v * b.v; s.regs[f.base + (u32)I.dst] = Val((u64)p & maskw(w)); s.regs[f.base + (u32)I.dst + 1] = Val((p >> w) != 0); return false; }
    case X_ABS: { Val a = A(0); Val n = binop(s, I_SLT, a, Val(0), w), g = binop(s, I_SUB, Val(0), a, w); ret(Val::of(mkIte(toE(n, 1), toE(g, w), toE(a, w)))); return false; }
    case X_CTPOP: { u64 v = CA(0); ret(Val((u64)__builtin_popcountll(v))); return false; }
    case X_CTLZ: { u64 v = CA(0); u64 r = w; for (u32 i = 0; i < w; i++) if (v >> (w - 1 - i) & 1) { r = i; break; } ret(Val(r)); return false; }
    case X_CTTZ: { u64 v = CA(0); u64 r = w; for (u32 i = 0; i < w; i++) if (v >> i & 1) { r = i; break; } ret(Val(r)); return false; }
    case X_BSWAP: { u64 v = CA(0); ret(Val(w == 64 ? __builtin_bswap64(v) : w == 32 ? __builtin_bswap32((u32)v) : __builtin_bswap16((uint16_t)v))); return false; }
    case X_FSHL: case X_FSHR: { u64 a = CA(0), b = CA(1), n = CA(2) % w; u64 r = n == 0 ? (c->intr == X_FSHL ? a : b) : c->intr == X_FSHL ? ((a << n) | (b >> (w - n))) : ((b >> n) | (a << (w - n))); ret(Val(r & maskw(w))); return false; }
    case X_EXPECT: ret(A(0)); return false;
    case X_ASSUME: return false;
    case X_ISCONST: ret(Val(0)); return false;
    case X_GUARD: { Val g = loadV(s, CA(0), 8); ret(Val(!g.e && g.v == 0 ? 1 : 0)); return false; }
    case X_GUARDSET: storeV(s, CA(0), Val(1), 8); return false;
    case X_OBJSIZE: ret(Val(~0ull)); return false;
    // ---- harness interface
    case S_SYM: { std::string n = cstr(s, CA(0)); u64 bw = CA(1); Expr* e = newSym(s, n, (u8)bw); s.inputs.emplace_back(n, mkZext(e, 64)); ret(Val::of(mkZext(e, 64))); return false; }
    case S_BOOL: { std::string n = cstr(s, CA(0)); Expr* e = newSym(s, n, 1); s.inputs.emplace_back(n, mkZext(e, 64)); ret(Val::of(c->retw == 1 ? e : mkZext(e, c->retw))); return false; }
    case S_RANGE: {
      std::string n = cstr(s, CA(0)); u64 lo = CA(1), hi = CA(2);
      if (lo > hi) { g_killed++; throw PathEnd{}; }
      if (lo == hi) { s.inputs.emplace_back(n, mkConst(lo, 64)); ret(Val(lo)); return false; }
      u8 bw = 1; while (bw < 64 && (hi - lo) > maskw(bw)) bw++;
      Expr* e = newSym(s, n, bw); Expr* v = mkBin(E_ADD, mkZext(e, 64), mkConst(lo, 64));
      s.inputs.emplace_back(n, v);
      if (hi - lo != maskw(bw)) assumeE(s, mkBin(E_ULE, e, mkConst(hi - lo, bw)));
      ret(Val::of(v)); return false; }
    case S_ASSUME: { Val v = A(0); Expr* e = toE(v, c->argw[0]); if (e->w != 1) e = mkNot(mkBin(E_EQ, e, mkConst(0, e->w))); assumeE(s, e); return false; }
    case S_CHECK: { Val v = A(0); if (v.e && v.e->w != 1) v = Val::of(mkNot(mkBin(E_EQ, v.e, mkConst(0, v.e->w)))); std::string m = v.e || !v.v ? cstr(s, CA(1)) : std::string(); doCheck(s, v, m); s.nchecks++; return false; }
    case S_SPLIT: ret(Val(CA(0))); return false;
    case S_COVER: { std::string n = cstr(s, CA(0)); g_covers[n]++; return false; }
    case S_TRACE: { s.trace.push_back(toE(A(0), c->argw[0])); return false; }
    case S_PARAM: { std::string n = cstr(s, CA(0)); auto it = g_params.find(n); ret(it == g_params.end() ? A(1) : Val((u64)it->second)); return false; }
    case S_GSET: { u64 a = CA(0), v = CA(1); Loc l = resolve(s, a, 1, false); Obj* o = l.t->getW(l.id); for (auto& p : o->ghost) if (p.first == l.off) { p.second = v; return false; } o->ghost.emplace_back(l.off, v); return false; }
    case S_GGET: { u64 a = CA(0); Loc l = resolve(s, a, 1, false); Obj* o = l.t->get(l.id); u64 v = 0; for (auto& p : o->ghost) if (p.first == l.off) v = p.second; ret(Val(v)); return false; }
    case S_READONLY: { u64 on = CA(0); s.readonly = on; if (on) for (u32 i = 0; i < s.mem.n; i++) { Obj* o = s.mem.get(i); if (o && o != FREED && (o->kind == K_HEAP || o->shared)) s.mem.getW(i)->roMark = true; } return false; }
    case S_HEAPLIVE: ret(Val(s.heapLive)); return false;
    case S_WORK: ret(Val(s.work)); return false;
    case S_ISSYM: ret(Val(A(0).e != nullptr)); return false;
    case S_SIZE: { u64 a = CA(0); Loc l = resolve(s, a, 0, false); ret(Val(l.t->get(l.id)->size)); return false; }
    case S_NOTE: { fprintf(stderr, "note %s = %llu\n", cstr(s, CA(0)).c_str(), (unsigned long long)(A(1).e ? evalS(s, A(1).e) : A(1).v)); return false; }
  }
  unsup("call of " + (c->f ? c->f->dem : std::string("?")));
}

static void run(State& s) {
  u32 tick = 0;
  while (true) {
    Frame& f = s.fr.back();
    Ins& I = f.f->code[f.pc];
    s.steps++;
    if (++tick == 65536) { tick = 0; if (s.steps > g_maxSteps) fail(s, "hang", "path does not end within the step limit"); if (now() > g_deadline) { g_stop = true; g_stopWhy = "time limit"; return; } }
    switch (I.op) {
      case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
      case I_UDIV: case I_SDIV: case I_UREM: case I_SREM:
      case I_EQ: case I_NE: case I_UGT: case I_UGE: case I_ULT: case I_ULE: case I_SGT: case I_SGE: case I_SLT: case I_SLE:
        s.regs[f.base + (u32)I.dst] = binop(s, I.op, rd(s, f, I.a), rd(s, f, I.b), I.w); f.pc++; break;
      case I_ZEXT: { Val a = rd(s, f, I.a); s.regs[f.base + (u32)I.dst] = a.e ? Val::of(mkZext(a.e, I.w)) : a; f.pc++; break; }
      case I_SEXT: { Val a = rd(s, f, I.a); s.regs[f.base + (u32)I.dst] = a.e ? Val::of(mkSext(a.e, I.w)) : Val((u64)sextw(a.v, I.w2) & maskw(I.w)); f.pc++; break; }
      case I_TRUNC: { Val a = rd(s, f, I.a); s.regs[f.base + (u32)I.dst] = a.e ? Val::of(mkExtract(a.e, 0, I.w)) : Val(a.v & maskw(I.w)); f.pc++; break; }
      case I_MOV:
        if (I.p) { u32 pc = f.pc; takeEdge(s, f, *(Edge*)I.p); f.pc = pc + 1; }
        else { for (u32 j = 0; j < I.n; j++) s.regs[f.base + (u32)I.dst + j] = rd(s, f, I.a >= 0 ? I.a + (i32)j : ~(~I.a + (i32)j)); f.pc++; }
        break;
      case I_FREEZE: { Val a = rd(s, f, I.a); if (a.e && a.e->undef) a = Val(0); s.regs[f.base + (u32)I.dst] = a; f.pc++; break; }
      case I_GEP: {
        Val p = rd(s, f, I.a); u64 k = I.k;
        if (I.p) {
          GepInfo* g = (GepInfo*)I.p;
          for (size_t j = 0; j < g->idx.size(); j++) {
            Val ix = rd(s, f, g->idx[j].first); u8 w = g->w[j];
            if (!ix.e) k += (u64)sextw(ix.v, w) * g->idx[j].second;
            else { Expr* e = mkBin(E_MUL, mkSext(ix.e, 64), mkConst(g->idx[j].second, 64)); p = Val::of(mkBin(E_ADD, toE(p, 64), e)); }
          }
        }
        s.regs[f.base + (u32)I.dst] = p.e ? Val::of(mkBin(E_ADD, p.e, mkConst(k, 64))) : Val(p.v + k);
        f.pc++; break;
      }
      case I_LOAD: {
        u64 a = concretize(s, rd(s, f, I.a), 64);
        if (I.p) { u32 j = 0; for (auto& p : *(std::vector<Part>*)I.p) s.regs[f.base + (u32)I.dst + j++] = loadV(s, a + p.off, p.w); }
        else s.regs[f.base + (u32)I.dst] = loadV(s, a, I.w);
        f.pc++; break;
      }
      case I_ARMW: {
        u64 a = concretize(s, rd(s, f, I.a), 64); Val old = loadV(s, a, I.w), v = rd(s, f, I.b); if (I.k) v = binop(s, (u8)I.k, old, v, I.w);
        g_atomicAccess = true; storeV(s, a, v, I.w); g_atomicAccess = false; s.regs[f.base + (u32)I.dst] = old; f.pc++; break;
      }
      case I_STORE: {
        u64 a = concretize(s, rd(s, f, I.a), 64); g_atomicAccess = I.k;
        if (I.p) { u32 j = 0; for (auto& p : *(std::vector<Part>*)I.p) { storeV(s, a + p.off, rd(s, f, I.b >= 0 ? I.b + (i32)j : ~(~I.b + (i32)j)), p.w); j++; } }
        else storeV(s, a, rd(s, f, I.b), I.w);
        g_atomicAccess = false; f.pc++; break;
      }
      case I_ALLOCA: s.regs[f.base + (u32)I.dst] = Val(allocStack(s, (u32)I.k)); f.pc++; break;
      case I_BR: takeEdge(s, f, *(Edge*)I.p); break;
      case I_CONDBR: { Val c = rd(s, f, I.a); bool t = c.e ? decide(s, c.e) : c.v; BrInfo* b = (BrInfo*)I.p; takeEdge(s, s.fr.back(), t ? b->t : b->f); break; }
      case I_SWITCH: {
        Val c = rd(s, f, I.a); SwitchInfo* sw = (SwitchInfo*)I.p; u64 v = concretize(s, c, I.w); Edge* e = &sw->def;
        for (auto& k : sw->cases) if (k.first == v) { e = &k.second; break; }
        takeEdge(s, s.fr.back(), *e); break;
      }
      case I_SELECT: {
        Val c = rd(s, f, I.a), a = rd(s, f, I.b), b = rd(s, f, I.c);
        if (!c.e) s.regs[f.base + (u32)I.dst] = c.v ? a : b; else s.regs[f.base + (u32)I.dst] = Val::of(mkIte(c.e, toE(a, I.w), toE(b, I.w)));
        f.pc++; break;
      }
      case I_RET: {
        static std::vector<Val> rv; rv.clear(); for (u32 j = 0; j < I.k; j++) rv.push_back(rd(s, f, I.a >= 0 ? I.a + (i32)j : ~(~I.a + (i32)j)));
        i32 dst = f.dst; popFrame(s);
        if (s.fr.empty()) { g_steps += s.steps - s.counted; g_paths++; return; }
        Frame& p = s.fr.back(); Ins& C = p.f->code[p.pc];
        if (dst >= 0) for (u32 j = 0; j < rv.size(); j++) s.regs[p.base + (u32)dst + j] = rv[j];
        if (C.op == I_INVOKE) takeEdge(s, p, ((CallInfo*)C.p)->normal); else p.pc++;
        break;
      }
      case I_CALL: case I_INVOKE: {
        CallInfo* c = (CallInfo*)I.p; Func* fn = c->f;
        if (fn && c->intr) {
          bool moved = doIntr(s, f, I, c);
          if (!moved) { Frame& g = s.fr.back(); if (I.op == I_INVOKE) takeEdge(s, g, c->normal); else g.pc++; }
          break;
        }
        if (!fn) { u64 a = concretize(s, rd(s, f, c->fp), 64); if ((a >> 60) != 3) fail(s, "memory", "call through an invalid function pointer"); u64 ix = (a & ~R_FUNC) >> 8; if (ix == 0 || ix > g_funcList.size()) fail(s, "memory", "call through an invalid function pointer"); fn = g_funcList[ix - 1]; if (fn->ext) unsup("indirect call of an intrinsic"); }
        if (fn->F->isDeclaration()) unsup("call of external function " + fn->dem);
        static std::vector<Val> args; args.clear(); for (i32 a : c->args) args.push_back(rd(s, f, a));
        for (size_t j = 0; j < args.size(); j++) if (c->byval[j] && args[j].e) unsup("symbolic byval pointer");
        pushCall(s, fn, args, c, I.dst, c->nret);
        break;
      }
      case I_LANDINGPAD: f.pc++; break;  // registers were set by unwind
      case I_RESUME: { Val p = rd(s, f, I.a); Exc e = s.cur; for (auto& x : s.excInfo) if (x.ptr == p.v) e = x; popFrame(s); if (s.fr.empty()) fail(s, "terminate", "exception escapes the entry function"); unwind(s, e); break; }
      case I_UNREACHABLE: fail(s, "unreachable", "unreachable code executed");
      case I_UNSUP: unsup(*(std::string*)I.p);
      default: abort();
    }
  }
}

static std::string jesc(std::string const& x) {
  std::string r; for (char ch : x) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r;
}
static u64 rssMB() { std::ifstream f("/proc/self/statm"); u64 a = 0, b = 0; f >> a >> b; return b * 4096 >> 20; }

// Self-test: random terms built through the simplifying constructors must equal (Z3) the terms built without.
static u64 g_rs = 88172645463325252ull;
static u64 rnd(u64 n) { g_rs ^= g_rs << 13; g_rs ^= g_rs >> 7; g_rs ^= g_rs << 17; return g_rs % n; }
struct Two { Expr *s, *r; };
static Two rterm(u8 w, int d);
static Two rleaf(u8 w) {
  static const u64 cs[] = {0, 1, 2, 3, 4, 8, 16, 255, ~0ull, ~1ull, 1ull << 7, 1ull << 31, 1ull << 63};
  if (rnd(3) == 0) { Expr* e = mkConst(rnd(4) ? cs[rnd(13)] : rnd(~0ull), w); return {e, e}; }
  u32 y = (u32)rnd(4); if (w > 8 && rnd(2)) { u8 v = w > 16 && rnd(2) ? 16 : 8; Expr* q = raw(E_SYM, v, 100 + y + (v == 8 ? 50 : 70)); return {mkZext(q, w), raw(E_ZEXT, w, 0, q)}; }
  Expr* e = raw(E_SYM, w, 100 + y + w * 100u); return {e, e};
}
static Two rbool(int d) {
  u8 w = d > 0 && rnd(3) == 0 ? 64 : 8; Two a = rterm(w, d - 1), b = rterm(w, d - 1);
  static const EOp ops[] = {E_EQ, E_ULT, E_ULE, E_SLT, E_SLE}; EOp o = ops[rnd(5)];
  return {mkBin(o, a.s, b.s), raw(o, 1, 0, a.r, b.r)};
}
static Two rterm(u8 w, int d) {
  if (d <= 0) return rleaf(w);
  if (w == 1) { if (rnd(2)) return rbool(d); Two a = rbool(d), b = rbool(d - 1); EOp o = rnd(3) == 0 ? E_XOR : rnd(2) ? E_AND : E_OR; return {mkBin(o, a.s, b.s), raw(o, 1, 0, a.r, b.r)}; }
  switch (rnd(12)) {
    case 0: case 1: case 2: { Two a = rterm(w, d - 1), b = rterm(w, d - 1); return {mkBin(E_ADD, a.s, b.s), raw(E_ADD, w, 0, a.r, b.r)}; }
    case 3: { Two a = rterm(w, d - 1), b = rterm(w, d - 1); return {mkSub(a.s, b.s), raw(E_ADD, w, 0, a.r, raw(E_ADD, w, 0, raw(E_XOR, w, 0, b.r, mkConst(~0ull, w)), mkConst(1, w)))}; }
    case 4: { Two a = rterm(w, d - 1); Expr* k = mkConst(rnd(2) ? 1ull << rnd(5) : rnd(2) ? rnd(20) : (u64)-(i64)rnd(20), w); return {mkBin(E_MUL, a.s, k), raw(E_MUL, w, 0, a.r, k)}; }
    case 5: { Two a = rterm(w, d - 1); Expr* k = mkConst(1 + rnd(16), w); static const EOp ops[] = {E_UDIV, E_UREM, E_SDIV, E_SREM}; EOp o = ops[rnd(4)]; return {mkBin(o, a.s, k), raw(o, w, 0, a.r, k)}; }
    case 6: { Two a = rterm(w, d - 1), b = rterm(w, d - 1); EOp o = rnd(3) == 0 ? E_XOR : rnd(2) ? E_AND : E_OR; return {mkBin(o, a.s, b.s), raw(o, w, 0, a.r, b.r)}; }
    case 7: { Two a = rterm(w, d - 1); Expr* k = mkConst(rnd(w), w); EOp o = rnd(3) == 0 ? E_SHL : rnd(2) ? E_LSHR : E_ASHR; return {mkBin(o, a.s, k), raw(o, w, 0, a.r, k)}; }
    case 8: { Two c = rbool(d - 1), a = rterm(w, d - 1), b = rterm(w, d - 1); return {mkIte(c.s, a.s, b.s), raw(E_ITE, w, 0, c.r, a.r, b.r)}; }
    case 9: if (w > 8) { u8 v = rnd(2) ? 8 : w == 64 ? 32 : 8; Two a = rterm(v, d - 1); return rnd(2) ? Two{mkZext(a.s, w), raw(E_ZEXT, w, 0, a.r)} : Two{mkSext(a.s, w), raw(E_SEXT, w, 0, a.r)}; } return rleaf(w);
    case 10: if (w < 64) { u8 v = w == 32 ? 64 : 32; u64 off = rnd(2) ? 0 : rnd((u64)(v - w) / 8 + 1) * 8; Two a = rterm(v, d - 1); return {mkExtract(a.s, (unsigned)off, w), raw(E_EXTRACT, w, off, a.r)}; } return rleaf(w);
    default: if (w == 16 || w == 64) { u8 v = w / 2; Two a = rterm(v, d - 1), b = rterm(v, d - 1); return {mkConcat(a.s, b.s), raw(E_CONCAT, w, 0, a.r, b.r)}; } return rleaf(w);
  }
}
static int selftest(u64 n) {
  u64 same = 0, proved = 0, open = 0; static const u8 ws[] = {1, 1, 8, 16, 32, 64};
  for (u64 i = 0; i < n; i++) {
    Two t = rterm(ws[rnd(6)], 1 + (int)rnd(4));
    if (t.s == t.r) { same++; continue; }
    if (t.s->w != t.r->w) { fprintf(stderr, "selftest: width changes\n"); return 1; }
    Z3_solver_push(Z, ZS);
    Z3_solver_assert(Z, ZS, Z3_mk_not(Z, Z3_mk_eq(Z, zBV(t.s), zBV(t.r))));
    Z3_lbool r = Z3_solver_check(Z, ZS);
    if (r == Z3_L_TRUE) { fprintf(stderr, "selftest: a simplification is wrong:\n%s\n%s\n", Z3_ast_to_string(Z, zBV(t.r)), Z3_ast_to_string(Z, zBV(t.s))); return 1; }
    if (r == Z3_L_FALSE) proved++; else open++;
    Z3_solver_pop(Z, ZS, 1);
  }
  printf("{\"terms\": %llu, \"unchanged\": %llu, \"proved_equal\": %llu, \"undecided\": %llu}\n", (unsigned long long)n, (unsigned long long)same, (unsigned long long)proved, (unsigned long long)open);
  return 0;
}

int main(int argc, char** argv) {
  std::string file, entry, out; double maxTime = 1e9; u64 maxMem = 6000; u64 maxPaths = ~0ull, self = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--entry") entry = next(); else if (a == "--out") out = next(); else if (a == "--max-time") maxTime = atof(next().c_str());
    else if (a == "--max-mem") maxMem = strtoull(next().c_str(), 0, 10); else if (a == "--max-viol") g_maxViol = (u32)atoi(next().c_str());
    else if (a == "--max-paths") maxPaths = strtoull(next().c_str(), 0, 10);
    else if (a == "--selftest") { self = strtoull(next().c_str(), 0, 10); g_timeoutMs = 400; }
    else if (a == "--seed") g_rs ^= strtoull(next().c_str(), 0, 10) * 0x9E3779B97F4A7C15ull;
    else if (a == "--no-certify") g_certify = false;
    else if (a == "--max-steps") g_maxSteps = strtoull(next().c_str(), 0, 10);
    else if (a == "--smt-dir") g_smtDir = next();
    else if (a == "--param") { std::string p = next(); auto q = p.find('='); g_params[p.substr(0, q)] = atoll(p.c_str() + q + 1); }
    else file = a;
  }
  double t0 = now(); g_deadline = t0 + maxTime;
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); exit(2); });
  ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, ZS);
  { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), (unsigned)g_timeoutMs); Z3_solver_set_params(Z, ZS, p); }
  if (self) return selftest(self);
  llvm::LLVMContext C; llvm::SMDiagnostic err; auto mod = llvm::parseIRFile(file, err, C);
  if (!mod) { err.print("sx", llvm::errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  std::unique_ptr<State> s0(new State);
  try {
    for (auto& G : M->globals()) {
      u32 sz = G.getValueType()->isSized() ? (u32)DL->getTypeAllocSize(G.getValueType()) : 8;
      u64 a = allocMain(*s0, sz, K_GLOBAL, 0); g_globals[&G] = a;
      Obj* o = s0->mem.getW((u32)((a >> 32) & 0x0fffffff) - 1); o->external = !G.hasInitializer();
      std::string n = G.getName().str(); if (n.rfind("_ZTI", 0) == 0) g_typeinfoNames[a] = n;
      o->shared = !G.isConstant() && !G.isThreadLocal() && n.rfind("_ZGV", 0) != 0 && n.find("segmented_tree") != std::string::npos;
    }
    for (auto& G : M->globals()) if (G.hasInitializer()) {
      if (G.getName().starts_with("llvm.")) continue;
      try {
        std::vector<Part> ps; flatten(G.getValueType(), 0, ps); std::vector<Val> vs; constVals(G.getInitializer(), vs);
        u64 a = g_globals[&G];
        Obj* o = s0->mem.getW((u32)((a >> 32) & 0x0fffffff) - 1);
        memset(o->st.data(), 1, o->size);
        for (size_t i = 0; i < ps.size(); i++) storeV(*s0, a + ps[i].off, vs[i], ps[i].w);
        s0->mem.getW((u32)((a >> 32) & 0x0fffffff) - 1)->constant = G.isConstant();
      } catch (Unsupported&) { s0->mem.getW((u32)((g_globals[&G] >> 32) & 0x0fffffff) - 1)->external = true; }
    }
    auto* F = M->getFunction(entry); if (!F) { fprintf(stderr, "no function %s\n", entry.c_str()); return 2; }
    pushCall(*s0, getFunc(F), {}, nullptr, -1, 0);
  } catch (Unsupported& u) { fprintf(stderr, "unsupported: %s\n", u.what.c_str()); return 2; }
  g_work.push_back(std::move(s0));
  u64 done = 0; u64 peak = 0;
  while (!g_work.empty() && !g_stop) {
    auto s = std::move(g_work.back()); g_work.pop_back();
    bool finished = false;
    try { run(*s); finished = !g_stop; } catch (PathEnd&) { g_steps += s->steps - s->counted; } catch (Unsupported& u) { g_unsup++; g_unsupMsg[u.what]++; g_steps += s->steps - s->counted; }
    if (finished && g_samples.size() < g_maxSamples && (g_paths >= g_nextSample)) { g_nextSample = g_paths + 1 + g_paths / 3; std::vector<std::pair<std::string, u64>> v; g_evalGen++; for (auto& in : s->inputs) v.emplace_back(in.first, evalE(in.second, s->model)); v.emplace_back("#checks", s->nchecks); u64 dg = 1469598103934665603ull; for (auto* e : s->trace) dg = (dg ^ evalE(e, s->model)) * 1099511628211ull; v.emplace_back("#digest", dg); g_samples.push_back(v); }
    if ((++done & 63) == 0) { u64 m = rssMB(); peak = std::max(peak, m); if (m > maxMem) { g_stop = true; g_stopWhy = "memory limit"; } if (now() > g_deadline) { g_stop = true; g_stopWhy = "time limit"; } }
    if (g_viol.size() >= g_maxViol) { g_stop = true; g_stopWhy = "violation limit"; }
    if (g_paths >= maxPaths) { g_stop = true; g_stopWhy = "path limit"; }
  }
  peak = std::max(peak, rssMB());
  std::ostringstream o;
  auto list = [&](std::vector<std::pair<std::string, u64>> const& v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "[\"" << jesc(v[i].first) << "\"," << v[i].second << "]"; o << "]"; };
  o << "{\"entry\":\"" << jesc(entry) << "\",\"complete\":" << ((g_work.empty() && !g_stop && !g_unsup) ? "true" : "false") << ",\"stop\":\"" << g_stopWhy << "\",\"pending\":" << g_work.size();
  o << ",\"paths\":" << g_paths << ",\"assumed_away\":" << g_killed << ",\"unsupported\":" << g_unsup << ",\"unsupported_msgs\":{";
  { bool first = true; for (auto& p : g_unsupMsg) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } }
  o << "},\"steps\":" << g_steps << ",\"forks\":" << g_forks << ",\"mem_checks\":" << g_memChecks << ",\"queries\":" << g_queries << ",\"sat\":" << g_sat << ",\"unsat\":" << g_unsat << ",\"unknown\":" << g_unknown << ",\"cache_hits\":" << g_cacheHits << ",\"range_closed\":" << g_rangeClosed << ",\"range_certified\":" << g_certified;
  o << ",\"assert_queries\":" << g_assertQ << ",\"assert_closed\":" << g_assertTrivial << ",\"solver_s\":" << g_solverTime << ",\"wall_s\":" << now() - t0 << ",\"peak_mb\":" << peak;
  o << ",\"covers\":{"; { bool first = true; for (auto& p : g_covers) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } }
  o << "},\"functions\":["; { bool first = true; for (auto* f : g_funcList) if (f->isSeq && f->hits && !f->F->isDeclaration()) { o << (first ? "" : ",") << "[\"" << jesc(f->dem) << "\"," << f->hits << "]"; first = false; } }
  o << "],\"samples\":["; for (size_t i = 0; i < g_samples.size(); i++) { if (i) o << ","; list(g_samples[i]); }
  o << "],\"violations\":["; for (size_t i = 0; i < g_viol.size(); i++) { auto& v = g_viol[i]; o << (i ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":"; list(v.inputs); o << "}"; }
  o << "]}\n";
  if (out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream fo(out); fo << o.str(); }
  fflush(stdout);
  _exit(g_viol.empty() ? 0 : 1);
}
