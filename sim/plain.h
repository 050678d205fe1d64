// Handles to ordinary types (S5): built-in, trivially copyable, empty, final,
// over-aligned, move-only and standard-library types, and composites of handles.
// They report nothing themselves, so a world of plain values says what each
// handle has to hold, and the allocators what became of storage and objects.
#ifndef SIM_PLAIN_H
#define SIM_PLAIN_H
#include <array>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "cfg.h"
#include "env.h"
#include "plan.h"
#include "record.h"

namespace sim {
// Allocator of what the owned types own in turn: may fail, and is accounted.
void inner_live(int d);  // 0: reset
int inner_left();
extern bool g_nan;
template <class T> struct InAlloc {
  using value_type = T;
  InAlloc() = default;
  template <class U> InAlloc(const InAlloc<U>&) noexcept {}
  T* allocate(std::size_t n) {
    point(P_ALLOC);
    inner_live(1);
    return static_cast<T*>(mem_alloc(62, 0, n * sizeof(T), n, alignof(T), B_HARNESS, sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept { inner_live(-1); mem_free(62, p, n, sizeof(T)); }
  template <class U> friend bool operator==(const InAlloc&, const InAlloc<U>&) noexcept { return true; }
  template <class U> friend bool operator!=(const InAlloc&, const InAlloc<U>&) noexcept { return false; }
};
struct InDel {
  template <class T> void operator()(T* p) const { p->~T(); InAlloc<T>().deallocate(p, 1); }
};
using InStr = std::basic_string<char, std::char_traits<char>, InAlloc<char>>;
template <class T> using InVec = std::vector<T, InAlloc<T>>;

inline std::string num(i64 v) { return std::to_string((long long)v); }
inline std::string num(double v) { char b[40]; if (v != v) return "nan"; snprintf(b, sizeof b, "%.17g", v); return b; }

// A description gives the owned type T, the plain type M it is compared with,
// and how to make and show both.  Alt is another type T can be made from.
template <class TT> struct DSelf {
  using T = TT;
  using M = TT;
};
#define D_BOTH                                       \
  static M mmake(i64 v) { return make(v); }          \
  static std::string mshow(const M& m) { return show(m); }

struct DInt : DSelf<int> { using Alt = short; static Alt alt(i64 v) { return (short)v; } static int make(i64 v) { return (int)v; } static std::string show(const int& t) { return num((i64)t); } D_BOTH };
struct DI64 : DSelf<long long> { using Alt = int; static Alt alt(i64 v) { return (int)v; } static long long make(i64 v) { return v; } static std::string show(const long long& t) { return num((i64)t); } D_BOTH };
struct DU64 : DSelf<std::size_t> { using Alt = unsigned char; static Alt alt(i64 v) { return (unsigned char)v; } static std::size_t make(i64 v) { return (std::size_t)v; } static std::string show(const std::size_t& t) { return num((i64)t); } D_BOTH };
struct DBool : DSelf<bool> { using Alt = bool; static Alt alt(i64 v) { return v & 1; } static bool make(i64 v) { return v & 1; } static std::string show(const bool& t) { return t ? "t" : "f"; } D_BOTH };
struct DDbl : DSelf<double> {
  using Alt = float;
  static Alt alt(i64 v) { return (float)(v & 0xfff); }
  static double make(i64 v) { return v % 5 == 0 && v ? std::nan("") : v == 0 ? -0.0 : (double)v / 4; }
  static std::string show(const double& t) { return num(t); } D_BOTH
};
enum class En : short { A = -3, B, C };
struct DEnum : DSelf<En> { using Alt = En; static En make(i64 v) { return (En)v; } static Alt alt(i64 v) { return make(v); } static std::string show(const En& t) { return num((i64)(short)t); } D_BOTH };
inline int f_one(int x) { return x + 1; }
inline int f_two(int x) { return x + 2; }
struct DFn : DSelf<int (*)(int)> {
  using Alt = T;
  static T make(i64 v) { return v % 3 == 0 ? nullptr : v & 1 ? f_one : f_two; }
  static Alt alt(i64 v) { return make(v); }
  static std::string show(const T& t) { return t ? num((i64)t(0)) : "null"; } D_BOTH
};
struct Empty {
  friend bool operator==(const Empty&, const Empty&) { return true; }
  friend bool operator!=(const Empty&, const Empty&) { return false; }
};
struct DEmpty : DSelf<Empty> { using Alt = Empty; static Empty make(i64) { return Empty(); } static Alt alt(i64) { return Empty(); } static std::string show(const Empty&) { return "e"; } D_BOTH };
struct TAgg {  // trivially copyable, with padding
  char c;
  long long v;
  short s[3];
  friend bool operator==(const TAgg& a, const TAgg& b) { return a.v == b.v; }
  friend bool operator!=(const TAgg& a, const TAgg& b) { return a.v != b.v; }
  friend bool operator<(const TAgg& a, const TAgg& b) { return a.v < b.v; }
  friend bool operator>(const TAgg& a, const TAgg& b) { return a.v > b.v; }
  friend bool operator<=(const TAgg& a, const TAgg& b) { return a.v <= b.v; }
  friend bool operator>=(const TAgg& a, const TAgg& b) { return a.v >= b.v; }
};
struct DAgg : DSelf<TAgg> {
  using Alt = TAgg;
  static TAgg make(i64 v) { return TAgg{(char)v, v, {1, (short)v, 3}}; }
  static Alt alt(i64 v) { return make(v); }
  static std::string show(const TAgg& t) { return num((i64)t.v) + "/" + num((i64)t.c) + "/" + num((i64)t.s[1]); } D_BOTH
};
struct alignas(64) Over final {
  int x = 0;
  Over() = default;
  explicit Over(int v) : x(v) {}
};
struct DOver {
  using T = Over;
  using Alt = int;
  struct M { int x = 0; M() = default; explicit M(int v) : x(v) {} };  // need not be aligned so
  static Alt alt(i64 v) { return (int)v; }
  static Over make(i64 v) { return Over((int)v); }
  static M mmake(i64 v) { return M((int)v); }
  static std::string show(const Over& t) { return ((std::uintptr_t)&t & 63) ? "misaligned" : num((i64)t.x); }
  static std::string mshow(const M& m) { return num((i64)m.x); }
};
// Knows where it lives; nothing about it can fail.
struct Self {
  i64 v = 0;
  const Self* me = this;
  Self() = default;
  explicit Self(i64 x) noexcept : v(x) {}
  Self(const Self& o) noexcept : v(o.v) {}
  Self(Self&& o) noexcept : v(o.v) { o.v = -1; }
  Self& operator=(const Self& o) noexcept { v = o.v; return *this; }
  Self& operator=(Self&& o) noexcept { if (this != &o) { v = o.v; o.v = -1; } return *this; }
  ~Self() { me = nullptr; }
  friend bool operator==(const Self& a, const Self& b) { return a.v == b.v; }
  friend bool operator!=(const Self& a, const Self& b) { return a.v != b.v; }
  friend bool operator<(const Self& a, const Self& b) { return a.v < b.v; }
};
struct DSelfP : DSelf<Self> {
  using Alt = long long;
  static Alt alt(i64 v) { return v; }
  static Self make(i64 v) { return Self(v); }
  static std::string show(const Self& t) { return t.me == &t ? num(t.v) : "moved bytewise"; } D_BOTH
};
// Nothing about it can fail, its destructor does nothing; it only counts.
struct Cnt {
  i64 v = 0;
  Cnt() = default;
  explicit constexpr Cnt(i64 x) noexcept : v(x) {}
  Cnt(const Cnt& o) noexcept : v(o.v) { bump(0); }
  Cnt(Cnt&& o) noexcept : v(o.v) { o.v = -1; bump(1); }
  Cnt& operator=(const Cnt& o) noexcept { v = o.v; bump(2); return *this; }
  Cnt& operator=(Cnt&& o) noexcept { if (this != &o) { v = o.v; o.v = -1; } bump(3); return *this; }
  static void bump(int i) { if (cx->inOp) ++cx->mcnt[i]; }
};
struct CAgg { Cnt c; };                       // an aggregate
struct CFin final { Cnt c; CFin() = default; explicit CFin(i64 v) : c(v) {} };
struct DCAgg : DSelf<CAgg> { static constexpr bool counted = true; using Alt = CAgg; static CAgg make(i64 v) { return CAgg{Cnt(v)}; } static Alt alt(i64 v) { return make(v); } static std::string show(const CAgg& t) { return num(t.c.v); } D_BOTH };
struct DCFin : DSelf<CFin> { static constexpr bool counted = true; using Alt = i64; static CFin make(i64 v) { return CFin(v); } static Alt alt(i64 v) { return v; } static std::string show(const CFin& t) { return num(t.c.v); } D_BOTH };
template <class D, class = void> struct counted_of : std::false_type {};
template <class D> struct counted_of<D, typename std::enable_if<D::counted>::type> : std::true_type {};
struct Fixed { const int x; };  // cannot be assigned
struct DFixed : DSelf<Fixed> { using Alt = Fixed; static Fixed make(i64 v) { return Fixed{(int)v}; } static Alt alt(i64 v) { return make(v); } static std::string show(const Fixed& t) { return num((i64)t.x); } D_BOTH };
struct DStr : DSelf<InStr> {
  using Alt = const char*;
  static Alt alt(i64 v) { static const char* const s[] = {"", "short", "a string that is too long for the small buffer", "z"}; return s[v & 3]; }
  static InStr make(i64 v) { return InStr((std::size_t)(v & 31), (char)('a' + (v & 15))); }
  static std::string show(const InStr& t) { return "'" + std::string(t.begin(), t.end()) + "'"; } D_BOTH
};
struct DVec : DSelf<InVec<int>> {
  using Alt = InVec<int>;
  static T make(i64 v) { T t; for (int i = 0; i < (int)(v & 3); ++i) t.push_back((int)v + i); return t; }
  static Alt alt(i64 v) { return make(v); }
  static std::string show(const T& t) { std::string s = "["; for (int x : t) s += num((i64)x) + " "; return s + "]"; } D_BOTH
};
struct DUp {  // move-only
  using T = std::unique_ptr<Self, InDel>;
  struct M {
    bool null = true; i64 v = 0;
    M(bool n, i64 x) : null(n), v(x) {}
    M(M&& o) noexcept : null(o.null), v(o.v) { o.null = true; }
    M& operator=(M&& o) noexcept { bool n = o.null; v = o.v; o.null = true; null = n; return *this; }
  };
  using Alt = std::nullptr_t;
  static Alt alt(i64) { return nullptr; }
  static T make(i64 v) { if (v % 7 == 0) return T(); Self* p = InAlloc<Self>().allocate(1); ::new ((void*)p) Self(v); return T(p); }
  static M mmake(i64 v) { return M(v % 7 == 0, v); }
  static std::string show(const T& t) { return t ? t->me == t.get() ? num(t->v) : "moved bytewise" : "null"; }
  static std::string mshow(const M& m) { return m.null ? "null" : num(m.v); }
};
struct MInd {  // what a handle to a number holds
  bool null; double v;
  MInd(double x) : null(false), v(x) {}
  MInd(const MInd&) = default;
  MInd(MInd&& o) noexcept : null(o.null), v(o.v) { o.null = true; }
  MInd& operator=(const MInd&) = default;
  MInd& operator=(MInd&& o) noexcept { bool n = o.null; v = o.v; o.null = true; null = n; return *this; }
  friend bool operator==(const MInd& a, const MInd& b) { return a.null || b.null ? a.null == b.null : a.v == b.v; }
  friend bool operator!=(const MInd& a, const MInd& b) { return !(a == b); }
  friend bool operator<(const MInd& a, const MInd& b) { return a.null || b.null ? a.null && !b.null : a.v < b.v; }
  friend bool operator>(const MInd& a, const MInd& b) { return b < a; }
  friend bool operator<=(const MInd& a, const MInd& b) { return a.null || b.null ? a.null : a.v <= b.v; }
  friend bool operator>=(const MInd& a, const MInd& b) { return b <= a; }
#if SIM_CXX20
  friend std::partial_ordering operator<=>(const MInd& a, const MInd& b) {
    if (a.null || b.null) return !a.null <=> !b.null;
    return a.v <=> b.v;
  }
#endif
};
// With NaN only where the run's knobs say so.
inline double nan_num(i64 v) { return g_nan && v ? DDbl::make(v) : (double)v / 4; }
// Composites that contain handles.
struct DPair {
  using IH = xyz::indirect<double, InAlloc<double>>;
  using T = std::pair<IH, int>;
  using M = std::pair<MInd, int>;
  using Alt = T;
  static T make(i64 v) { return T(IH(std::allocator_arg, InAlloc<double>(), nan_num(v)), (int)(v & 1)); }
  static Alt alt(i64 v) { return make(v); }
  static M mmake(i64 v) { return M(MInd(nan_num(v)), (int)(v & 1)); }
  static std::string show(const T& t) { return (t.first.valueless_after_move() ? "-" : num(*t.first)) + "," + num((i64)t.second); }
  static std::string mshow(const M& m) { return (m.first.null ? "-" : num(m.first.v)) + "," + num((i64)m.second); }
};
struct DVecI {
  using IH = xyz::indirect<double, InAlloc<double>>;
  using T = InVec<IH>;
  using M = std::vector<double>;
  using Alt = T;
  static T make(i64 v) { T t; for (int i = 0; i < (int)(v & 3); ++i) t.emplace_back(std::allocator_arg, InAlloc<double>(), nan_num(v + i)); return t; }
  static Alt alt(i64 v) { return make(v); }
  static M mmake(i64 v) { M m; for (int i = 0; i < (int)(v & 3); ++i) m.push_back(nan_num(v + i)); return m; }
  static std::string show(const T& t) { std::string s = "["; for (auto& x : t) s += (x.valueless_after_move() ? "-" : num(*x)) + " "; return s + "]"; }
  static std::string mshow(const M& t) { std::string s = "["; for (auto& x : t) s += num(x) + " "; return s + "]"; }
};
struct DInd {  // a handle to a handle
  using T = xyz::indirect<double, InAlloc<double>>;
  using M = MInd;
  using Alt = T;
  static double num_(i64 v) { return (double)v / 4; }  // no NaN: handle against value of a nested handle orders weakly, as specified
  static T make(i64 v) { return T(std::allocator_arg, InAlloc<double>(), num_(v)); }
  static Alt alt(i64 v) { return make(v); }
  static M mmake(i64 v) { return M(num_(v)); }
  static std::string show(const T& t) { return t.valueless_after_move() ? "-" : num(*t); }
  static std::string mshow(const M& m) { return m.null ? "-" : num(m.v); }
};

// ------------------------------------------------------------ polymorphic --
struct PM { int k; i64 v; bool moved = false; PM(int a, i64 b) : k(a), v(b) {} };
// Base kinds.  U<k>::make(v) and show(base, k), put(base, k, v).
struct PB { int x = 0; PB() = default; explicit PB(int v) : x(v) {} };          // trivially copyable, nothing virtual
struct PD1 : PB { long y[3]; explicit PD1(i64 v) : PB((int)v), y{(long)v, 2, (long)v} {} };
struct PD2 : PB { InStr s; explicit PD2(i64 v) : PB((int)v), s(DStr::make(v | 16)) {} };
struct PPad { long z[2] = {5, 6}; };
struct PD3 : PPad, PB { Self t; explicit PD3(i64 v) : PB((int)v), t(v) {} };
struct DPB {
  using T = PB;
  static constexpr int N = 4;
  template <class F> static bool with(int k, F f) {
    switch (k) { case 0: f(PB((int)f.v)); break; case 1: f(PD1(f.v)); break; case 2: f(PD2(f.v)); break; default: f(PD3(f.v)); }
    return true;
  }
  static std::string show(const PB& b, int k) {
    std::string s = num((i64)b.x);
    switch (k) {
      case 1: { auto& d = static_cast<const PD1&>(b); s += "," + num((i64)d.y[0]) + "," + num((i64)d.y[1]); break; }
      case 2: s += DStr::show(static_cast<const PD2&>(b).s); break;
      case 3: { auto& d = static_cast<const PD3&>(b); s += num((i64)d.z[1]) + DSelfP::show(d.t); break; }
    }
    return s;
  }
  static const void* whole(const PB& b, int k) { return k == 3 ? (const void*)static_cast<const PD3*>(&b) : &b; }
  static constexpr bool concrete = true;
  static PB make0() { return PB(); }
};
struct VB {  // the usual kind of base
  virtual ~VB() {}
  virtual std::string str() const { return "VB"; }
};
struct VD1 : VB { i64 v; explicit VD1(i64 x) : v(x) {} std::string str() const override { return "1:" + num(v); } };
struct VD2 final : VB { InStr s; Self t; explicit VD2(i64 x) : s(DStr::make(x | 16)), t(x) {} std::string str() const override { return "2:" + DStr::show(s) + DSelfP::show(t); } };
struct alignas(128) VD3 : PPad, VB { InVec<int> w; explicit VD3(i64 x) : w(DVec::make(x | 1)) {} std::string str() const override { return ((std::uintptr_t)this & 127 ? "misaligned:" : "3:") + DVec::show(w); } };
struct VI { virtual i64 iv() const { return 3; } };
struct VD4 : virtual VB, VI { i64 v; explicit VD4(i64 x) : v(x) {} std::string str() const override { return "4:" + num(v + iv()); } };
struct DVB {
  using T = VB;
  static constexpr int N = 5;
  template <class F> static bool with(int k, F f) {
    switch (k) { case 0: f(VB()); break; case 1: f(VD1(f.v)); break; case 2: f(VD2(f.v)); break; case 3: f(VD3(f.v)); break; default: f(VD4(f.v)); }
    return true;
  }
  static std::string show(const VB& b, int) { return b.str(); }
  static const void* whole(const VB& b, int) { return dynamic_cast<const void*>(&b); }
  static constexpr bool concrete = true;
};
struct EB {};  // empty base
struct ED1 : EB { explicit ED1(i64) {} };
struct ED2 : EB { i64 v; EB also; explicit ED2(i64 x) : v(x) {} };
struct DEB {
  using T = EB;
  static constexpr int N = 3;
  template <class F> static bool with(int k, F f) {
    switch (k) { case 0: f(EB()); break; case 1: f(ED1(f.v)); break; default: f(ED2(f.v)); }
    return true;
  }
  static std::string show(const EB& b, int k) { return k == 2 ? num(static_cast<const ED2&>(b).v) : "e"; }
  static const void* whole(const EB& b, int) { return &b; }
  static constexpr bool concrete = true;
};

// Copies and moves of these are counted.
struct CB { CB() = default; };
struct CD1 : CB { Cnt c; };                   // an aggregate, from C++17 on
struct CD2 final : PPad, CB { Cnt c; explicit CD2(i64 v) : c(v) {} };
struct CD3 : CB { long pad[40] = {}; Cnt c; explicit CD3(i64 v) : c(v) { pad[39] = (long)v; } };
struct DCB {
  using T = CB;
  static constexpr bool counted = true;
  static constexpr int N = 4;
  template <class F> static bool with(int k, F f) {
    switch (k) { case 0: { CD3 x(f.v + 1); f(x); break; } case 1: { CD1 x; x.c.v = f.v; f(x); break; } case 2: f(CD2(f.v)); break; default: f(CD3(f.v)); }
    return true;
  }
  static std::string show(const CB& b, int k) {
    if (k == 1) return num(static_cast<const CD1&>(b).c.v);
    if (k == 2) return num(static_cast<const CD2&>(b).c.v);
    auto& d = static_cast<const CD3&>(b);
    return num(d.c.v) + "," + num((i64)d.pad[39]);
  }
  static const void* whole(const CB& b, int k) { return k == 2 ? (const void*)static_cast<const CD2*>(&b) : &b; }
  static constexpr bool concrete = false;
};

// Elements that take over the allocator of the handle which owns them, if its
// construct tells them.
template <class T, u32 F, int K> struct AllocSel { using type = SimAlloc<T, F>; };
template <class T, u32 F> struct AllocSel<T, F, 1> { using type = std::scoped_allocator_adaptor<SimAlloc<T, F & ~(u32)A_SCOPED>>; };
#if SIM_PMR
template <class T, u32 F> struct AllocSel<T, F, 2> { using type = std::pmr::polymorphic_allocator<T>; };
#endif
template <class T, u32 F> using AllocFor = typename AllocSel<T, F, (F & A_PMR) ? 2 : (F & A_SCOPED) ? 1 : 0>::type;
template <u32 F> struct InnerSel { using type = typename AllocSel<char, F & ~(u32)A_SCOPED, (F & A_PMR) ? 2 : 0>::type; };
static const char* const FOREIGN_AL = " constructed without the handle's allocator";
template <u32 F> struct UEl {
  using allocator_type = typename InnerSel<F>::type;
  using AA = allocator_type;
  AA al;
  i64 v;
  static AA outside() { return Mk<AA>::make(7, 3); }
  UEl() : al(outside()), v(0) {}
  explicit UEl(i64 x) : al(outside()), v(x) {}
  UEl(const UEl& o) : al(outside()), v(o.v) {}
  UEl(UEl&& o) noexcept : al(outside()), v(o.v) { o.v = -1; }
  UEl(std::allocator_arg_t, const AA& a) : al(a), v(0) {}
  UEl(std::allocator_arg_t, const AA& a, i64 x) : al(a), v(x) {}
  UEl(std::allocator_arg_t, const AA& a, const UEl& o) : al(a), v(o.v) {}
  UEl(std::allocator_arg_t, const AA& a, UEl&& o) : al(a), v(o.v) { o.v = -1; }
  UEl& operator=(const UEl& o) noexcept { v = o.v; return *this; }
  UEl& operator=(UEl&& o) noexcept { if (this != &o) { v = o.v; o.v = -1; } return *this; }
  std::string str() const {
    BlkInfo bi;
    if (mem_find(this, bi) && !(bi.flags & B_HARNESS) && (((F & A_IAE) ? 0 : arena_of(al)) != bi.arena || tag_of(al) != bi.tag))
      return num(v) + FOREIGN_AL;
    return num(v);
  }
  friend bool operator==(const UEl& a, const UEl& b) { return a.v == b.v; }
  friend bool operator!=(const UEl& a, const UEl& b) { return a.v != b.v; }
  friend bool operator<(const UEl& a, const UEl& b) { return a.v < b.v; }
};
template <u32 F> struct DUEl {
  using T = UEl<F>;
  using M = Self;
  using Alt = i64;
  static T make(i64 v) { return T(v); }
  static Alt alt(i64 v) { return v; }
  static M mmake(i64 v) { return M(v); }
  static std::string show(const T& t) { return t.str(); }
  static std::string mshow(const M& m) { return num(m.v); }
};
struct UB { int x = 7; };
template <u32 F> struct UD1 : UB, UEl<F> { using UEl<F>::UEl; };
// The allocator comes last here.
template <u32 F> struct UD2 : PPad, UB {
  using allocator_type = typename InnerSel<F>::type;
  using AA = allocator_type;
  UEl<F> e;
  UD2() {}
  explicit UD2(i64 x) : e(x) {}
  UD2(const UD2& o) : e(o.e) {}
  UD2(UD2&& o) noexcept : e(std::move(o.e)) {}
  UD2(const AA& a) : e(std::allocator_arg, a) {}
  UD2(i64 x, const AA& a) : e(std::allocator_arg, a, x) {}
  UD2(const UD2& o, const AA& a) : e(std::allocator_arg, a, o.e) {}
  UD2(UD2&& o, const AA& a) : e(std::allocator_arg, a, std::move(o.e)) {}
  UD2& operator=(const UD2&) = default;
};
template <u32 F> struct DUB {
  using T = UB;
  static constexpr int N = 3;
  template <class FN> static bool with(int k, FN f) {
    switch (k) { case 0: f(UB()); break; case 1: f(UD1<F>(f.v)); break; default: f(UD2<F>(f.v)); }
    return true;
  }
  static std::string show(const UB& b, int k) {
    std::string s = num((i64)b.x) + ",";
    if (k == 1) s += static_cast<const UD1<F>&>(b).str();
    if (k == 2) s += static_cast<const UD2<F>&>(b).e.str();
    return s;
  }
  static const void* whole(const UB& b, int k) { return k == 1 ? (const void*)static_cast<const UD1<F>*>(&b) : k == 2 ? (const void*)static_cast<const UD2<F>*>(&b) : &b; }
  static constexpr bool concrete = true;
};

template <class D, u32 F> struct XI {
  static constexpr int fam = 0;
  static constexpr bool counted = counted_of<D>::value;
  using T = typename D::T;
  using M = typename D::M;
  using A = AllocFor<T, F>;
  using H = xyz::indirect<T, A>;
  using Alt = typename D::Alt;
  static H& h(void* p) { return *static_cast<H*>(p); }
  static constexpr bool copyable = std::is_copy_constructible<T>::value;
  static constexpr bool defable = std::is_default_constructible<T>::value;
  static constexpr bool cas = std::is_copy_assignable<T>::value, mas = std::is_move_assignable<T>::value;
  static constexpr bool ord = has_lt<T>::value && !std::is_pointer<T>::value;
  static constexpr bool alt_ = !std::is_same<Alt, T>::value;
  static constexpr u32 caps = (defable ? C_DEF : 0) | (copyable ? C_COPY : 0) | (cas ? C_CASSIGN : 0) | (mas ? C_MASSIGN : 0) | (SIM_CXX20 ? C_KCTOR : 0);
  static constexpr u32 flags = F;
  static constexpr int ntypes = 1;
  template <class X, class Y> static bool compare(const X& x, const Y& y, const Op& o, Res& r) {
    bool res = false;
    switch (o.flav) {
      case 0: if constexpr (has_eq<T>::value) { WE(res, x == y); r.cmp = res; return true; } return false;
      case 1: if constexpr (has_eq<T>::value) { WE(res, x != y); r.cmp = res; return true; } return false;
      case 2: if constexpr (ord) { WE(res, x < y); r.cmp = res; return true; } return false;
      case 3: if constexpr (ord && has_gt<T>::value) { WE(res, x > y); r.cmp = res; return true; } return false;
      case 4: if constexpr (ord && has_gt<T>::value) { WE(res, x <= y); r.cmp = res; return true; } return false;
      case 5: if constexpr (ord && has_gt<T>::value) { WE(res, x >= y); r.cmp = res; return true; } return false;
    }
    return false;
  }
  template <class Q> static int mcompare(const Q& x, const Q& y, int flav) {
    if constexpr (has_eq<Q>::value) { if (flav == 0) return x == y; if (flav == 1) return !(x == y); }
    if constexpr (has_lt<Q>::value) { if (flav == 2) return x < y; if (flav == 3) return y < x; }
    if constexpr (has_lt<Q>::value && has_gt<Q>::value) { if (flav == 4) return x <= y; if (flav == 5) return x >= y; }
    else if constexpr (has_lt<Q>::value) { if (flav == 4) return !(y < x); if (flav == 5) return !(x < y); }
    return -1;
  }
  static bool exec(const Op& o, void* pa, void* pb, Res& r) {
    A al = Mk<A>::make(o.arena, o.tag);
    switch (o.kind) {
      case O_DEF: if constexpr (defable && std::is_default_constructible<A>::value) { W(::new (pa) H()); return true; } return false;
      case O_A_DEF: if constexpr (defable) { W(::new (pa) H(std::allocator_arg, al)); return true; } return false;
      case O_VAL_L: if constexpr (copyable && std::is_default_constructible<A>::value) { const T x = D::make(o.v); W(::new (pa) H(x)); return true; } return false;
      case O_A_VAL_L: if constexpr (copyable) { const T x = D::make(o.v); W(::new (pa) H(std::allocator_arg, al, x)); return true; } return false;
      case O_VAL_R: if constexpr (std::is_default_constructible<A>::value) { T x = D::make(o.v); W(::new (pa) H(std::move(x))); return true; } return false;
      case O_A_VAL_R: {
        T x = D::make(o.v);
        std::string was = D::show(x);
        struct Chk { T& x; std::string& was; bool ok = false; ~Chk() { if (!ok && D::show(x) != was) { win_end(); mismatch(V_ARG, false, "value argument was consumed by the failed operation"); } } } c{x, was};
        W(::new (pa) H(std::allocator_arg, al, std::move(x)));
        c.ok = true;
        return true;
      }
#if SIM_CXX20
      case O_KEY_L: if constexpr (alt_ && std::is_default_constructible<A>::value) { const Alt k = D::alt(o.v); W(::new (pa) H(k)); return true; } return false;
      case O_A_KEY_R: if constexpr (alt_) { W(::new (pa) H(std::allocator_arg, al, D::alt(o.v))); return true; } return false;
#endif
      case O_INPL1: if constexpr (alt_ && std::is_default_constructible<A>::value) { W(::new (pa) H(InPlace{}, D::alt(o.v))); return true; } return false;
      case O_A_INPL1: if constexpr (alt_) { W(::new (pa) H(std::allocator_arg, al, InPlace{}, D::alt(o.v))); return true; } return false;
      case O_COPY: if constexpr (copyable) { if (o.flav == 1) W(::new (pa) H(h(pb))); else W(::new (pa) H(const_cast<const H&>(h(pb)))); return true; } return false;
      case O_A_COPY: if constexpr (copyable) { if (o.flav == 1) W(::new (pa) H(std::allocator_arg, al, h(pb))); else W(::new (pa) H(std::allocator_arg, al, const_cast<const H&>(h(pb)))); return true; } return false;
      case O_MOVE: W(::new (pa) H(std::move(h(pb)))); return true;
      case O_A_MOVE: W(::new (pa) H(std::allocator_arg, al, std::move(h(pb)))); return true;
      case O_DTOR: W(h(pa).~H()); return true;
      case O_CASSIGN: if constexpr (copyable && cas) { if (o.flav == 1) W(h(pa) = h(pb)); else W(h(pa) = const_cast<const H&>(h(pb))); return true; } return false;
      case O_MASSIGN: W(h(pa) = std::move(h(pb))); return true;
      case O_FA_L: if constexpr (copyable && cas) { const T x = D::make(o.v); W(h(pa) = x); return true; } return false;
      case O_FA_R: if constexpr (mas) { T x = D::make(o.v); W(h(pa) = std::move(x)); return true; } return false;
      case O_FA_KL: if constexpr (alt_ && std::is_assignable<T&, const Alt&>::value) { const Alt k = D::alt(o.v); W(h(pa) = k); return true; } return false;
      case O_FA_KR: if constexpr (alt_ && std::is_assignable<T&, Alt>::value) { W(h(pa) = D::alt(o.v)); return true; } return false;
      case O_SWAP:
        if (o.flav == 0) W(h(pa).swap(h(pb)));
        else if (o.flav == 1) { using std::swap; W(swap(h(pa), h(pb))); }
        else W(std::swap(h(pa), h(pb)));
        return true;
      case O_ROUNDTRIP: W(H tmp(std::move(h(pa))); h(pa) = std::move(tmp)); return true;
      case O_VAL_ALIAS_L: if constexpr (copyable) { const T& x = *const_cast<const H&>(h(pb)); W(::new (pa) H(std::allocator_arg, al, x)); return true; } return false;
      case O_SET: if constexpr (mas) { T x = D::make(o.v); *h(pa) = std::move(x); return true; } return false;
      case O_GET: {
        H& x = h(pa);
        const H& cxh = x;
        Win w_;
        r.addrs[1] = std::addressof(*cxh);
        if (o.ty & 0x80) { r.addrs[0] = r.addrs[1]; r.naddrs = 2; return true; }
        r.addrs[0] = std::addressof(*x);
        { T&& t = *std::move(x); r.addrs[2] = std::addressof(t); }
        { const T&& t = *std::move(cxh); r.addrs[3] = std::addressof(t); }
        r.addrs[4] = std::addressof(*x.operator->());
        r.addrs[5] = std::addressof(*cxh.operator->());
        r.naddrs = 6;
        return true;
      }
      case O_CMP: return compare(const_cast<const H&>(h(pa)), const_cast<const H&>(h(pb)), o, r);
      case O_CMPV: if constexpr (has_eq<T>::value) { const T y = D::make(o.v); return compare(const_cast<const H&>(h(pa)), y, o, r); } return false;
      case O_VCMP: if constexpr (has_eq<T>::value && (!ord || has_gt<T>::value)) { const T x = D::make(o.v); return compare(x, const_cast<const H&>(h(pa)), o, r); } return false;
      case O_HASH: if constexpr (has_hash<T>::value) { const H& x = h(pa); std::size_t v = 0; WE(v, std::hash<H>{}(x)); r.hash = v; return true; } return false;
    }
    return false;
  }
  static M model(const Op& o) { return D::mmake(o.v); }
  static M model_alt(const Op& o) {
    if constexpr (std::is_constructible<M, Alt>::value) return M(D::alt(o.v));
    else return D::mmake(o.v * 7);
  }
  static M model_def() { if constexpr (std::is_default_constructible<M>::value) return M(); else return D::mmake(0); }
  static M mcopy(const M& m) { if constexpr (std::is_copy_constructible<M>::value) return M(m); else { abort(); } }
  static std::string mshow(const M& m) { return D::mshow(m); }
  static int mcmp(const M& a, const M& b, int flav) { return mcompare(a, b, flav); }
  static bool mhash(const M& m, u64& out) { if constexpr (has_hash<M>::value && has_hash<T>::value) { out = std::hash<M>{}(m); return true; } else { (void)m; (void)out; return false; } }
  static void look(const H& x, const M*, std::string& s, const void*& addr, const void*& obj) { s = D::show(*x); addr = obj = std::addressof(*x); }
  static constexpr std::size_t size(const M*) { return sizeof(T); }
  static void touch(M&, const Op&) {}
  static constexpr bool in_place = cas;
};

template <class D, u32 F> struct XP {
  static constexpr int fam = 1;
  static constexpr bool counted = counted_of<D>::value;
  using T = typename D::T;
  using M = PM;
  using A = AllocFor<T, F>;
  using H = xyz::polymorphic<T, A>;
  static H& h(void* p) { return *static_cast<H*>(p); }
  static constexpr u32 caps = (D::concrete ? C_DEF : 0) | C_COPY;
  static constexpr u32 flags = F;
  static constexpr int ntypes = D::N;
  struct Ctor {
    const Op& o; void* pa; i64 v;
    template <class U> void operator()(U u) {
      using IP = InPlaceType<U>;
      A al = Mk<A>::make(o.arena, o.tag);
      const U& cu = u;
      switch (o.kind) {
        case O_VAL_L: if constexpr (std::is_default_constructible<A>::value) W(::new (pa) H(cu)); break;
        case O_VAL_R: if constexpr (std::is_default_constructible<A>::value) W(::new (pa) H(std::move(u))); break;
        case O_A_VAL_L: W(::new (pa) H(std::allocator_arg, al, cu)); break;
        case O_A_VAL_R: W(::new (pa) H(std::allocator_arg, al, std::move(u))); break;
        case O_INPL1: if constexpr (std::is_default_constructible<A>::value) W(::new (pa) H(IP{}, cu)); break;
        case O_A_INPL1: W(::new (pa) H(std::allocator_arg, al, IP{}, std::move(u))); break;
        case O_SET: static_cast<U&>(u); set<U>(u, 0); break;
      }
    }
    template <class U> void set(U& u, int) { put<U>(*h(pa), u, 0); }
    template <class U> static auto put(T& t, U& u, int) -> decltype((void)static_cast<U&>(t)) { static_cast<U&>(t) = u; }
    template <class U> static void put(T& t, U& u, long) { dynamic_cast<U&>(t) = u; }
  };
  static bool exec(const Op& o, void* pa, void* pb, Res& r) {
    A al = Mk<A>::make(o.arena, o.tag);
    switch (o.kind) {
      case O_DEF: if constexpr (D::concrete && std::is_default_constructible<A>::value) { W(::new (pa) H()); return true; } return false;
      case O_A_DEF: if constexpr (D::concrete) { W(::new (pa) H(std::allocator_arg, al)); return true; } return false;
      case O_VAL_L: case O_VAL_R: case O_INPL1: if (!std::is_default_constructible<A>::value) return false;
      // fallthrough
      case O_A_VAL_L: case O_A_VAL_R: case O_A_INPL1:
        return D::with(o.ty % D::N, Ctor{o, pa, o.v});
      case O_COPY: if (o.flav == 1) W(::new (pa) H(h(pb))); else W(::new (pa) H(const_cast<const H&>(h(pb)))); return true;
      case O_A_COPY: if (o.flav == 1) W(::new (pa) H(std::allocator_arg, al, h(pb))); else W(::new (pa) H(std::allocator_arg, al, const_cast<const H&>(h(pb)))); return true;
      case O_MOVE: W(::new (pa) H(std::move(h(pb)))); return true;
      case O_A_MOVE: W(::new (pa) H(std::allocator_arg, al, std::move(h(pb)))); return true;
      case O_DTOR: W(h(pa).~H()); return true;
      case O_CASSIGN: if (o.flav == 1) W(h(pa) = h(pb)); else W(h(pa) = const_cast<const H&>(h(pb))); return true;
      case O_MASSIGN: W(h(pa) = std::move(h(pb))); return true;
      case O_SWAP:
        if (o.flav == 0) W(h(pa).swap(h(pb)));
        else if (o.flav == 1) { using std::swap; W(swap(h(pa), h(pb))); }
        else W(std::swap(h(pa), h(pb)));
        return true;
      case O_ROUNDTRIP: W(H tmp(std::move(h(pa))); h(pa) = std::move(tmp)); return true;
      case O_GET: {
        H& x = h(pa);
        const H& cxh = x;
        Win w_;
        r.addrs[1] = std::addressof(*cxh);
        r.addrs[3] = cxh.operator->();
        if (o.ty & 0x80) { r.addrs[0] = r.addrs[3]; r.naddrs = 2; return true; }
        r.addrs[0] = std::addressof(*x);
        r.addrs[2] = x.operator->();
        r.naddrs = 4;
        return true;
      }
    }
    return false;
  }
  static bool set(const Op& o, void* pa, int k) { return D::with(k, Ctor{o, pa, o.v}); }
  struct Show {
    i64 v; std::string* out; int k;
    template <class U> void operator()(U u) { *out = D::show(u, k); }
  };
  static M model(const Op& o) { return PM(o.ty % D::N, o.v); }
  static M model_alt(const Op& o) { return model(o); }
  static M model_def() { return PM(0, 0); }
  static M mcopy(const M& m) { return m; }
  static std::string mshow(const M& m) { std::string s; if (m.moved) return "?"; D::with(m.k, Show{m.v, &s, m.k}); return num((i64)m.k) + ":" + s; }
  static int mcmp(const M&, const M&, int) { return -1; }
  static bool mhash(const M&, u64&) { return false; }
  static void look(const H& x, const M* m, std::string& s, const void*& addr, const void*& obj) {
    addr = std::addressof(*x);
    s = m->moved ? "?" : num((i64)m->k) + ":" + D::show(*x, m->k);
    obj = D::whole(*x, m->k);
  }
  static void touch(M& m, const Op& o) { m.v = o.v; }
  struct Sz { i64 v; std::size_t* n; template <class U> void operator()(U) { *n = sizeof(U); } };
  static std::size_t size(const M* m) { std::size_t n = 0; D::with(m->k, Sz{0, &n}); return n; }
  static constexpr bool in_place = false;
};

template <class X> struct RunP {
  using H = typename X::H;
  using M = typename X::M;
  using A = typename X::A;
  struct Slot {
    bool live = false, vl = false;
    std::unique_ptr<M> m;
    const void* addr = nullptr;
    u32 arena = 0, tag = 0;
  };
  static constexpr u32 F = X::flags;
  static bool iae() { return F & A_IAE; }
#if SIM_PMR
  static constexpr u32 DEFTAG = (F & A_PMR) ? (u32)TAG_PMR_DEF : (u32)TAG_DEF;
#else
  static constexpr u32 DEFTAG = TAG_DEF;
#endif
  static bool eqa(u32 x, u32 y) { return iae() || x == y; }
  static std::unique_ptr<M> dup(const Slot& s) { return std::unique_ptr<M>(s.m ? new M(X::mcopy(*s.m)) : nullptr); }
  static std::unique_ptr<M> stolen(Slot& s) {  // what a move-constructed object holds, and leaves behind
    std::unique_ptr<M> n(new M(std::move(*s.m)));
    if (X::fam == 1) setmoved(*s.m, 0);
    return n;
  }
  template <class Q> static auto setmoved(Q& m, int) -> decltype((void)m.moved) { m.moved = true; }
  template <class Q> static void setmoved(Q&, long) {}

  enum { NS = 8, MAXFIB = 3 };
  // What each thread keeps for itself.
  struct Mine {
    bool stop = false, vhk = false;
    u64 vhash = 0;
    std::string where;
  };
  static Mine mine[MAXFIB];
  static Slot* slots;
  static void** room;
  static const Op* theOps;
  static int nOps;
  static bool conc;
  static Mine& my() { return mine[conc ? fiber_self() : 0]; }

  static void check(int i, Slot& s, const H& x, bool fresh, bool other, const char* when) {
    bool vl = x.valueless_after_move();
    A al = x.get_allocator();
    if (!iae() && arena_of(al) != s.arena) { mismatch(V_ALLOCATOR, other, "slot %d reports arena %u, expected %u, %s [%s]", i, arena_of(al), s.arena, when, my().where.c_str()); my().stop = true; }
    if (tag_of(al) != s.tag) { mismatch(V_ALLOC_TAG, other, "slot %d reports allocator identity %u, expected %u, %s [%s]", i, tag_of(al), s.tag, when, my().where.c_str()); my().stop = true; }
    if (vl != s.vl) {
      mismatch(V_VALUELESS, other, "slot %d is %s, expected %s, %s [%s]", i, vl ? "valueless" : "not valueless", s.vl ? "valueless" : "not valueless", when, my().where.c_str());
      my().stop = true;
      return;
    }
    if (vl) return;
    std::string got;
    const void *addr = nullptr, *obj = nullptr;
    BlkInfo bi;
    addr = std::addressof(*x);
    if (!mem_find(addr, bi) || (bi.flags & B_HARNESS)) violate(V_DEAD_USE, "slot %d: owned object is not in allocator storage [%s]", i, my().where.c_str());
    if (!bi.live) violate(V_UAF, "slot %d: owned object is in released storage [%s]", i, my().where.c_str());
    if (!iae() && bi.arena != arena_of(al)) violate(V_WRONG_ARENA, "slot %d: owned storage belongs to arena %u, handle reports %u [%s]", i, bi.arena, arena_of(al), my().where.c_str());
    X::look(x, s.m.get(), got, addr, obj);
    if (obj < bi.base || (const char*)obj + X::size(s.m.get()) > (const char*)bi.base + bi.bytes) violate(V_OVERRUN, "slot %d: owned object exceeds its storage [%s]", i, my().where.c_str());
    std::string want = X::mshow(*s.m);
    if (got != want && got.find(FOREIGN_AL) != std::string::npos) { mismatch(V_BYPASS_CONS, other, "slot %d: the owned object %s, expected %s, %s [%s]", i, got.c_str(), want.c_str(), when, my().where.c_str()); my().stop = true; }
    else if (got != want) { mismatch(V_VALUE, other, "slot %d holds %s, expected %s, %s [%s]", i, got.c_str(), want.c_str(), when, my().where.c_str()); my().stop = true; }
    if (!fresh && s.addr != addr) { mismatch(V_IDENTITY, other, "slot %d: owned object was replaced, %s [%s]", i, when, my().where.c_str()); my().stop = true; }
    if (fresh && bi.tag != s.tag) { mismatch(V_ALLOC_TAG, other, "slot %d: storage came from allocator identity %u, handle reports %u [%s]", i, bi.tag, s.tag, my().where.c_str()); my().stop = true; }
    s.addr = addr;
  }

  static void run(const Op* ops, int n, u64 knobs) {
    g_nan = knobs & 32;
    Slot S[NS];
    void* mem[NS];
    for (auto& m : mine) m = Mine();
    slots = S; room = mem; theOps = ops; nOps = n; conc = false;
    inner_live(0);
    for (int i = 0; i < NS; ++i) mem[i] = mem_alloc(77, 0, sizeof(H), 1, alignof(H), B_HARNESS, sizeof(H));
    {
      bool nxm = iae() || (F & A_POCMA), nxs = iae() || (F & A_POCS);
      if (!std::is_nothrow_move_constructible<H>::value || !std::is_nothrow_destructible<H>::value || (nxm && !std::is_nothrow_move_assignable<H>::value) ||
          (iae() && !std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, H>::value) ||
          (nxs && (!noexcept(std::declval<H&>().swap(std::declval<H&>())) || !noexcept(swap(std::declval<H&>(), std::declval<H&>())))) ||
          !noexcept(*std::declval<H&>()) || !noexcept(*std::declval<const H&>()) || !noexcept(std::declval<const H&>().valueless_after_move()))
        mismatch(V_NOEXCEPT, false, "an operation is not advertised as non-throwing");
    }
    const u32 all = (1u << NS) - 1;
    bool threads = threaded(MAXFIB);
    for (int i = 0; i < n && !my().stop; ++i)
      if (!threads || ops[i].fiber == FB_SETUP) step(ops[i], i, S, mem, all);
    if (threads && !my().stop) {
      conc = true;
      threads_run(fiber);
      conc = false;
      for (auto& m : mine) mine[0].stop |= m.stop;
      for (int i = 0; i < NS; ++i)
        if (S[i].live && !my().stop) check(i, S[i], *static_cast<H*>(mem[i]), false, true, "after the threads finished");
      for (int i = 0; i < n && !my().stop; ++i)
        if (ops[i].fiber == FB_AFTER) step(ops[i], i, S, mem, all);
    }
    for (int i = 0; i < NS; ++i)
      if (S[i].live) static_cast<H*>(mem[i])->~H();
    if (mem_live_lib()) violate(V_LEAK_MEM, "%u allocations remain at the end", mem_live_lib());
    for (auto& s : S) s.m.reset();
    if (int left = inner_left()) violate(V_LEAK_OBJ, "%d allocations of owned objects remain at the end", left);
    mem_check_redzones();
    for (int i = 0; i < NS; ++i) mem_free(77, mem[i], 1, sizeof(H));
  }
  // Two slots are shared by all threads, which only read them; two belong to each.
  static void fiber(int f) {
    for (int i = 0; i < nOps && !my().stop; ++i) {
      Op o = theOps[i];
      if (o.fiber != f) continue;
      auto own = [&](u8 s) { return (u8)(2 + 2 * f + (s & 1)); };
      auto any = [&](u8 s) { return (s & 2) ? own(s) : (u8)(s & 1); };
      switch (o.kind) {
        case O_COPY: case O_A_COPY: case O_CASSIGN: case O_VAL_ALIAS_L:
          o.a = own(o.a); o.b = any(o.b);
          if (o.b < 2) o.flav = o.flav == 1 ? 0 : o.flav;
          break;
        case O_CMP: case O_CMPV: case O_VCMP: case O_HASH: case O_GET:
          o.a = any(o.a); o.b = any(o.b);
          if (o.a < 2) o.ty |= 0x80;
          break;
        default: o.a = own(o.a); o.b = own(o.b);
      }
      step(o, i, slots, room, 3u | (3u << (2 + 2 * f)));
    }
  }
  static void step(const Op& o0, int idx, Slot* S, void** mem, u32 vis) {
    u64& vhash = my().vhash;
    bool& vhk = my().vhk;
    Op o = o0;
    int a = o.a % NS, b = o.b % NS;
    if (iae()) o.arena = 0;
    if (F & A_PMR) o.tag = (o.tag >> 4) & 7;
    u8 k = o.kind;
    bool ctor = (k >= O_DEF && k <= O_A_MOVE) || k == O_VAL_ALIAS_L;
    bool ub = (k >= O_COPY && k <= O_A_MOVE) || k == O_CASSIGN || k == O_MASSIGN || k == O_SWAP || k == O_VAL_ALIAS_L || k == O_CMP;
    auto skip = [&] { if (g_rec) g_rec->skipped++; };
    if (!k || k >= O_LAST_S1) return skip();
    if (ctor && ub && a == b) return skip();
    if (ub && !S[b].live) return skip();
    if (!ctor && !S[a].live) return skip();
    if ((k == O_GET || k == O_SET) && S[a].vl) return skip();
    if (k == O_VAL_ALIAS_L && S[b].vl) return skip();
    if (k == O_SWAP && a != b && !(F & A_POCS) && !eqa(S[a].arena, S[b].arena)) return skip();
    if (k == O_SWAP && o.flav == 2 && (a == b || !eqa(S[a].arena, S[b].arena))) return skip();
    if (k == O_SET && X::fam == 1 && S[a].m && X::mshow(*S[a].m) == "?") return skip();
    if (k >= O_CMP && k <= O_VCMP && o.flav > 5) o.flav = 0;
    my().where = op_text(o);
    my().where.pop_back();
    if (ctor && S[a].live) {
      Op d;
      d.kind = O_DTOR;
      guarded(d, idx, false, [&] { Res q; X::exec(d, mem[a], nullptr, q); });
      S[a] = Slot();
    }
    if (k == O_SET && X::fam == 1) { set(o, S[a], mem[a]); return; }
    bool k1 = k == O_MASSIGN && a != b && (F & A_POCMA) && !iae() && !S[b].vl && S[a].arena != S[b].arena;
    if (g_rec) { g_rec->probes[60] = S[a].live && S[a].vl; g_rec->probes[61] = ub && S[b].vl; }
    Res r;
    bool ok = true;
    u32 liveMem = mem_live_lib();
    int failed = guarded(o, idx, !k1, [&] { ok = X::exec(o, mem[a], ub ? mem[b] : nullptr, r); });
    if (!ok) { if (g_digest) digest_line("unsupported\n"); return skip(); }
    Ctx& c = *cx;
    u32 acons = c.acons, adest = c.adest, fallible = c.throwing, allocs = c.allocs;
    Point fpnt = c.firedPoint;
    bool fresh = false, inplace = false;
    int born = 0, died = 0;
    bool av = S[a].live && S[a].vl, bv = ub && S[b].vl;
    u32 skey = (S[a].live ? 1 + av : 0) + 4 * (ub ? 1 + bv : 0) + 16 * (a == b) + 32 * (ub && eqa(S[a].arena, S[b].arena));
    if (!failed && cx->fired) { my().stop = true; }  // reported, if it matters here
    inplace = !ctor && X::fam == 0 && ((k >= O_FA_L && k <= O_FA_KR && !av) || (k == O_CASSIGN && a != b && !av && !bv && eqa(S[a].arena, S[b].arena) && X::in_place));
    if (failed && inplace && S[a].m) {  // the owned type's own failed assignment
      std::string got;
      const void *p, *q;
      X::look(*static_cast<H*>(mem[a]), S[a].m.get(), got, p, q);
      if (got != X::mshow(*S[a].m)) { my().stop = true; }
    }
    if (!failed) {
      Slot e;
      e.live = true;
      bool bdies = false;
      auto alloc = [&](Slot& s, u32 ar, u32 tg) { s.arena = ar; s.tag = tg; };
      auto val = [&](M&& m) { e.m.reset(new M(std::move(m))); fresh = true; born = 1; };
      u32 dar = iae() ? 0 : (F & A_PMR) ? (u32)AR_SOCCC : (u32)AR_DEF, dtag = DEFTAG;
      auto keep = [&] { e.vl = S[a].vl; e.m = std::move(S[a].m); e.addr = S[a].addr; alloc(e, S[a].arena, S[a].tag); };
      // An unequal move may leave the source valueless or moved-from.
      auto taken = [&] {
        e.m = stolen(S[b]);
        fresh = true; born = 1;
        if (static_cast<H*>(mem[b])->valueless_after_move()) { S[b].vl = true; S[b].m.reset(); bdies = true; }
      };
      switch (k) {
        case O_DEF: val(X::model_def()); alloc(e, dar, dtag); break;
        case O_A_DEF: val(X::model_def()); alloc(e, o.arena, o.tag); break;
        case O_VAL_L: case O_VAL_R: val(X::model(o)); alloc(e, dar, dtag); break;
        case O_A_VAL_L: case O_A_VAL_R: val(X::model(o)); alloc(e, o.arena, o.tag); break;
        case O_KEY_L: case O_INPL1: val(X::model_alt(o)); alloc(e, dar, dtag); break;
        case O_A_KEY_R: case O_A_INPL1: val(X::model_alt(o)); alloc(e, o.arena, o.tag); break;
        case O_VAL_ALIAS_L: e.m = dup(S[b]); fresh = true; born = 1; alloc(e, o.arena, o.tag); break;
        case O_COPY: case O_A_COPY:
          if (bv) e.vl = true; else { e.m = dup(S[b]); fresh = true; born = 1; }
          if (k == O_A_COPY) alloc(e, o.arena, o.tag);
          else if (F & A_SOCCC) alloc(e, iae() ? 0 : (u32)AR_SOCCC, (F & A_PMR) ? DEFTAG : S[b].tag + 1);
          else alloc(e, S[b].arena, S[b].tag);
          break;
        case O_MOVE: case O_A_MOVE: {
          u32 ar = k == O_A_MOVE ? o.arena : S[b].arena, tg = k == O_A_MOVE ? o.tag : S[b].tag;
          if (bv) e.vl = true;
          else if (eqa(ar, S[b].arena)) { e.m = std::move(S[b].m); e.addr = S[b].addr; S[b].vl = true; }
          else taken();
          alloc(e, ar, tg);
          break;
        }
        case O_DTOR: e.live = false; died = !av; break;
        case O_CASSIGN: {
          if (a == b) { keep(); break; }
          u32 ar = S[a].arena, tg = S[a].tag;
          if (inplace) { keep(); e.m = dup(S[b]); }
          else { died = !av; if (bv) e.vl = true; else { e.m = dup(S[b]); fresh = true; born = 1; } }
          alloc(e, ar, tg);
          if (F & A_POCCA) alloc(e, S[b].arena, S[b].tag);
          break;
        }
        case O_MASSIGN: {
          if (a == b) { keep(); break; }
          died = !av;
          u32 ar = S[a].arena, tg = S[a].tag;
          if (bv) e.vl = true;
          else if (eqa(S[a].arena, S[b].arena)) { e.m = std::move(S[b].m); e.addr = S[b].addr; S[b].vl = true; }
          else taken();
          alloc(e, ar, tg);
          if (F & A_POCMA) alloc(e, S[b].arena, S[b].tag);
          break;
        }
        case O_FA_L: case O_FA_R: case O_FA_KL: case O_FA_KR: {
          bool alt = k == O_FA_KL || k == O_FA_KR;
          if (!av) { keep(); e.m.reset(new M(alt ? X::model_alt(o) : X::model(o))); }
          else { u32 ar = S[a].arena, tg = S[a].tag; val(alt ? X::model_alt(o) : X::model(o)); alloc(e, ar, tg); }
          break;
        }
        case O_SWAP:
          keep();
          if (a != b) {
            std::swap(e.m, S[b].m); std::swap(e.addr, S[b].addr); std::swap(e.vl, S[b].vl);
            if (((F & A_POCS) && o.flav != 2) || (o.flav == 2 && (F & A_POCMA))) { std::swap(e.arena, S[b].arena); std::swap(e.tag, S[b].tag); }
          }
          break;
        case O_SET: keep(); e.m.reset(new M(X::model(o))); break;
        default: keep(); break;
      }
      // results
      if (k >= O_CMP && k <= O_VCMP) {
        std::unique_ptr<M> v;
        const M *x = e.m.get(), *y = nullptr;
        if (k == O_CMP) { y = a == b ? x : S[b].m.get(); } else { v.reset(new M(X::model(o))); y = v.get(); }
        if (k == O_VCMP) std::swap(x, y);
        int want;
        if (x && y) want = X::mcmp(*x, *y, o.flav);
        else {
          int q = !x && !y ? 0 : !x ? -1 : 1;
          bool t[6] = {q == 0, q != 0, q < 0, q > 0, q <= 0, q >= 0};
          want = t[o.flav];
        }
        if (want >= 0 && want != r.cmp) { mismatch(V_COMPARE, false, "comparison %u of %s with %s gave %d, expected %d [%s]", o.flav, x ? X::mshow(*x).c_str() : "valueless", y ? X::mshow(*y).c_str() : "valueless", r.cmp, want, my().where.c_str()); my().stop = true; }
      }
      if (k == O_HASH) {
        u64 want = 0;
        if (!e.m) {
          if (vhk && vhash != r.hash) { mismatch(V_HASH, false, "valueless handles hash differently"); my().stop = true; }
          vhash = r.hash; vhk = true;
        } else if (X::mhash(*e.m, want) && want != r.hash) { mismatch(V_HASH, false, "hash differs from the owned value's hash [%s]", my().where.c_str()); my().stop = true; }
      }
      for (int j = 0; j < r.naddrs; ++j)
        if (r.addrs[j] != e.addr) { mismatch(V_ACCESS, false, "access path %d reaches a different object [%s]", j, my().where.c_str()); my().stop = true; }
      if (X::fam == 0 && !(F & A_PMR) && k != O_ROUNDTRIP && k != O_SET && (born != (int)acons || died + bdies != (int)adest)) {
        Cls w = (int)acons < born ? V_BYPASS_CONS : (int)acons == born && (int)adest < died + bdies ? V_BYPASS_DESTROY : V_COUNTS;
        mismatch(w, false, "%u owned objects were constructed and %u destroyed through the allocator, expected %d and %d [%s]", acons, adest, born, died + bdies, my().where.c_str());
        my().stop = true;
      }
      if (X::counted && k != O_SET) {
        bool rv = k == O_VAL_R || k == O_A_VAL_R || k == O_MOVE || k == O_A_MOVE || k == O_MASSIGN || k == O_FA_R || (k == O_A_INPL1 && X::fam == 1);
        bool lv = k == O_VAL_L || k == O_A_VAL_L || k == O_COPY || k == O_A_COPY || k == O_CASSIGN || k == O_FA_L || k == O_VAL_ALIAS_L || (k == O_INPL1 && X::fam == 1);
        // copies and moves of an assigned value are the owned type's affair
        int want[4] = {born && lv, born && rv, inplace && lv, inplace && rv};
        if (!((k == O_FA_KL || k == O_FA_KR) && inplace))
          for (int j = 0; j < 4; ++j)
            if ((int)c.mcnt[j] != want[j]) {
              mismatch(V_COUNTS, false, "owned object was copied %u, moved %u, copy-assigned %u and move-assigned %u times, expected %d %d %d %d [%s]", c.mcnt[0], c.mcnt[1], c.mcnt[2], c.mcnt[3], want[0], want[1], want[2], want[3], my().where.c_str());
              my().stop = true;
              break;
            }
      }
      if (!born && !inplace && k != O_SET && k != O_CMP && k != O_CMPV && k != O_VCMP && allocs) { mismatch(V_COUNTS, false, "operation allocated needlessly [%s]", my().where.c_str()); my().stop = true; }
      if (!k1) {
        bool nx = (k == O_MOVE) || (k == O_A_MOVE && iae()) || (k == O_MASSIGN && std::is_nothrow_move_assignable<H>::value) || (k == O_SWAP && o.flav < 2 && ((F & A_POCS) || iae())) || k == O_DTOR || k == O_GET;
        if (nx && fallible) { mismatch(V_NOEXCEPT, false, "a non-throwing operation reached %u steps that may fail [%s]", fallible, my().where.c_str()); my().stop = true; }
      }
      S[a] = std::move(e);
    }
    int valued = 0;
    for (int i = 0; i < NS; ++i) {
      if (!(vis >> i & 1) || !S[i].live) continue;
      valued += !S[i].vl;
      if (my().stop) continue;
      const void* was = S[i].addr;
      check(i, S[i], *static_cast<H*>(mem[i]), fresh && !failed && i == a, !(i == a || (ub && i == b)), failed ? "after the failed operation" : "after the operation");
      if (my().stop) continue;
      (void)was;
      for (int j = 0; j < i; ++j)
        if ((vis >> j & 1) && S[j].live && !S[j].vl && !S[i].vl && S[j].addr == S[i].addr) violate(V_IDENTITY, "slots %d and %d share one object [%s]", i, j, my().where.c_str());
    }
    if (!my().stop && !conc) {
      if (failed && mem_live_lib() != liveMem) violate(mem_live_lib() > liveMem ? V_LEAK_MEM : V_DOUBLE_FREE, "failed operation changed the number of live allocations from %u to %u [%s]", liveMem, mem_live_lib(), my().where.c_str());
      if (!valued && mem_live_lib()) violate(V_LEAK_MEM, "%u allocations remain, no handle owns anything [%s]", mem_live_lib(), my().where.c_str());
      if (X::fam == 0 && (int)mem_live_lib() != valued) violate((int)mem_live_lib() > valued ? V_LEAK_MEM : V_DEAD_USE, "%u live allocations, handles own %d objects [%s]", mem_live_lib(), valued, my().where.c_str());
    }
    stat_op(o, failed, 0x9100 + skey * 64 + (failed ? fpnt : 0));
    if (g_digest) {
      char q[160];
      snprintf(q, sizeof q, "%d %s %s cmp=%d hash=%llu exc=%s mem=%u/%u cnt=%u,%u,%u,%u", idx, op_name[k], failed ? "failed" : "ok", r.cmp, (unsigned long long)(std::is_pointer<typename X::T>::value ? 0 : r.hash), failed ? point_name[fpnt] : "-", allocs, c.deallocs, c.mcnt[0], c.mcnt[1], c.mcnt[2], c.mcnt[3]);
      std::string s = q;
      for (int i = 0; i < NS && !my().stop; ++i) {
        if (!S[i].live) { s += " |-"; continue; }
        s += " |" + num((i64)S[i].arena) + "/" + num((i64)S[i].tag) + " " + (S[i].vl ? "valueless" : X::mshow(*S[i].m));
      }
      digest_line((s + "\n").c_str());
    }
  }
  static void set(const Op& o, Slot& s, void* p) { set_(o, s, p, std::integral_constant<int, X::fam>()); }
  static void set_(const Op&, Slot&, void*, std::integral_constant<int, 0>) {}
  template <class I> static void set_(const Op& o, Slot& s, void* p, I) {
    guarded(o, cx->opIndex, false, [&] { X::set(o, p, s.m->k); });
    s.m->v = o.v;
    check(0, s, *static_cast<H*>(p), false, false, "after writing");
  }
};
template <class X> typename RunP<X>::Mine RunP<X>::mine[RunP<X>::MAXFIB];
template <class X> typename RunP<X>::Slot* RunP<X>::slots;
template <class X> void** RunP<X>::room;
template <class X> const Op* RunP<X>::theOps;
template <class X> int RunP<X>::nOps;
template <class X> bool RunP<X>::conc = false;
#define CFG_X(ID, NAME, XX, DD, FLAGS)                                                                                      \
  static ScenInfo ID##_s = {NAME, 5, XX<DD, (FLAGS)>::fam, (FLAGS), XX<DD, (FLAGS)>::caps, nullptr, RunP<XX<DD, (FLAGS)>>::run}; \
  static Reg ID##_reg(nullptr, &ID##_s);
}  // namespace sim
#endif
