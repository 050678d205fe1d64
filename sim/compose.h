// Composites of handles (S4).  The same operations are applied to a world
// built from the library's handles and to a world built from plain values;
// the two have to stay equal.
#ifndef SIM_COMPOSE_H
#define SIM_COMPOSE_H
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <scoped_allocator>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#define SIM_17 1
#else
#define SIM_17 0
#endif
#include "cfg.h"
#include "env.h"
#include "plan.h"
#include "record.h"

namespace sim {
// Allocator of the containers: separate storage, may fail.
template <class T> struct ContAlloc {
  using value_type = T;
  ContAlloc() = default;
  template <class U> ContAlloc(const ContAlloc<U>&) noexcept {}
  T* allocate(std::size_t n) {
    point(P_ALLOC);
    return static_cast<T*>(mem_alloc(60, 0, n * sizeof(T), n, alignof(T), B_HARNESS, sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept { mem_free(60, p, n, sizeof(T)); }
  template <class U> friend bool operator==(const ContAlloc&, const ContAlloc<U>&) noexcept { return true; }
  template <class U> friend bool operator!=(const ContAlloc&, const ContAlloc<U>&) noexcept { return false; }
};

// The plain value a handle stands for.
struct MV {
  bool vl = true, moved = false;
  i64 val = 0;
  u8 type = 0;
  MV() = default;
  MV(const MV&) = default;
  MV& operator=(const MV&) = default;
  MV(MV&& o) noexcept : vl(o.vl), moved(o.moved), val(o.val), type(o.type) { o = MV(); }
  MV& operator=(MV&& o) noexcept {
    if (this == &o) return *this;
    vl = o.vl; moved = o.moved; val = o.val; type = o.type;
    o.vl = true; o.moved = false; o.val = 0; o.type = 0;
    return *this;
  }
  friend bool operator==(const MV& a, const MV& b) { return a.vl || b.vl ? a.vl == b.vl : a.val == b.val; }
  friend bool operator<(const MV& a, const MV& b) { return a.vl || b.vl ? a.vl && !b.vl : a.val < b.val; }
#if SIM_CXX20
  friend std::strong_ordering operator<=>(const MV& a, const MV& b) { return a < b ? std::strong_ordering::less : b < a ? std::strong_ordering::greater : std::strong_ordering::equal; }
#endif
};
inline MV mv(i64 v, u8 t) { MV m; m.vl = false; m.val = v; m.type = t; return m; }

template <class V, class VA> struct Agg {
  V a;
  std::vector<V, VA> v;
  V b;
  Agg(V x, V y) : a(std::move(x)), b(std::move(y)) {}
  friend bool operator==(const Agg& x, const Agg& y) { return x.a == y.a && x.v == y.v && x.b == y.b; }
};
// Everything generated by the compiler.
template <class V> struct Dfl {
  V a;
  int n;
  V b;
#if SIM_CXX20
  friend bool operator==(const Dfl&, const Dfl&) = default;
  friend auto operator<=>(const Dfl&, const Dfl&) = default;
#else
  friend bool operator==(const Dfl& x, const Dfl& y) { return x.a == y.a && x.n == y.n && x.b == y.b; }
  friend bool operator<(const Dfl& x, const Dfl& y) { return std::tie(x.a, x.n, x.b) < std::tie(y.a, y.n, y.b); }
#endif
};
// What a handle to T stands for when T is itself composed.
template <class T> struct Box {
  std::unique_ptr<T> p;
  Box() = default;
  explicit Box(const T& t) : p(new T(t)) {}
  Box(const Box& o) : p(o.p ? new T(*o.p) : nullptr) {}
  Box(Box&&) = default;
  Box& operator=(const Box& o) { Box t(o); p = std::move(t.p); return *this; }
  Box& operator=(Box&& o) = default;
  Box& operator=(const T& t) { Box x(t); p = std::move(x.p); return *this; }
  T& operator*() { return *p; }
  T* operator->() { return p.get(); }
  bool valueless_after_move() const { return !p; }
  friend bool operator==(const Box& a, const Box& b) { return !a.p || !b.p ? !a.p == !b.p : *a.p == *b.p; }
};

template <u32 F> struct RealI {
  static constexpr int fam = 0;
  using A = SimAlloc<Basic, F>;
  using V = xyz::indirect<Basic, A>;
  template <class T> using CA = ContAlloc<T>;
  using G = Agg<V, ContAlloc<V>>;
  using HH = xyz::indirect<G, SimAlloc<G, F>>;
  struct Less { bool operator()(const V& x, const V& y) const { return x < y; } };
  struct Eq { bool operator()(const V& x, const V& y) const { return x == y; } };
  // Containers that hand their (inner) allocator to their elements.
  using SC = std::vector<V, std::scoped_allocator_adaptor<ContAlloc<V>, A>>;
  using SM = std::map<i64, V, std::less<i64>, std::scoped_allocator_adaptor<ContAlloc<std::pair<const i64, V>>, A>>;
  template <class C> static C scoped(u32 i) { return C(typename C::allocator_type(ContAlloc<typename C::value_type>(), Mk<A>::make(1 + i, 7))); }
  static constexpr bool pocca = (F & A_POCCA) && !(F & A_IAE), pocs = (F & (A_POCS | A_IAE)) != 0;
  using Hash = std::hash<V>;
  static V make(const Op& o) { return V(std::allocator_arg, Mk<A>::make(o.arena, o.tag), InPlace{}, Key(o.v)); }
  static HH box(const G& g) { return HH(std::allocator_arg, Mk<SimAlloc<G, F>>::make(1, 5), g); }
  template <class C> static void emplace(C& c, const Op& o) { A al = Mk<A>::make(o.arena, o.tag); c.emplace_back(std::allocator_arg, al, InPlace{}, Key(o.v)); }
  template <class C> static void emplace_in(C& c, const Op& o) { c.emplace_back(InPlace{}, Key(o.v)); }
  static const Core& core(const V& h) { return (*h).core; }
  static const void* obj(const V& h) { return std::addressof(*h); }
  static constexpr bool defable = true, ordered = true;
};
template <u32 F> struct RealP {
  static constexpr int fam = 1;
  using A = SimAlloc<Base, F>;
  using V = xyz::polymorphic<Base, A>;
  template <class T> using CA = ContAlloc<T>;
  using G = Agg<V, ContAlloc<V>>;
  using HH = xyz::indirect<G, SimAlloc<G, F>>;
  struct Less {
    bool operator()(const V& x, const V& y) const {
      point(P_CMP);
      if (x.valueless_after_move() || y.valueless_after_move()) return x.valueless_after_move() && !y.valueless_after_move();
      return x->c().val < y->c().val;
    }
  };
  struct Eq { bool operator()(const V& x, const V& y) const { return !Less()(x, y) && !Less()(y, x); } };
  struct Hash { std::size_t operator()(const V& x) const { return x.valueless_after_move() ? 0 : hash_val(x->c().val); } };
  // Containers that hand their (inner) allocator to their elements.
  using SC = std::vector<V, std::scoped_allocator_adaptor<ContAlloc<V>, A>>;
  using SM = std::map<i64, V, std::less<i64>, std::scoped_allocator_adaptor<ContAlloc<std::pair<const i64, V>>, A>>;
  template <class C> static C scoped(u32 i) { return C(typename C::allocator_type(ContAlloc<typename C::value_type>(), Mk<A>::make(1 + i, 7))); }
  static constexpr bool pocca = (F & A_POCCA) && !(F & A_IAE), pocs = (F & (A_POCS | A_IAE)) != 0;
  static V make(const Op& o) {
    A al = Mk<A>::make(o.arena, o.tag);
    switch (o.ty % 3) {
      case 0: return V(std::allocator_arg, al, InPlaceType<DSmall>{}, Key(o.v));
      case 1: return V(std::allocator_arg, al, InPlaceType<DMulti>{}, Key(o.v));
      default: return V(std::allocator_arg, al, InPlaceType<DVirt>{}, Key(o.v));
    }
  }
  static HH box(const G& g) { return HH(std::allocator_arg, Mk<SimAlloc<G, F>>::make(1, 5), g); }
  template <class C> static void emplace(C& c, const Op& o) { A al = Mk<A>::make(o.arena, o.tag); c.emplace_back(std::allocator_arg, al, InPlaceType<DBig>{}, Key(o.v)); }
  template <class C> static void emplace_in(C& c, const Op& o) { c.emplace_back(InPlaceType<DBig>{}, Key(o.v)); }
  static const Core& core(const V& h) { return h->c(); }
  static const void* obj(const V& h) { return (*h).whole(); }
  static constexpr bool defable = false, ordered = false;
};
template <int FAM> struct Plain {
  static constexpr int fam = FAM;
  using V = MV;
  template <class T> using CA = std::allocator<T>;
  using G = Agg<V, std::allocator<V>>;
  using HH = Box<G>;
  struct Less { bool operator()(const V& x, const V& y) const { return x < y; } };
  struct Eq { bool operator()(const V& x, const V& y) const { return x == y; } };
  struct Hash { std::size_t operator()(const V& x) const { return x.vl ? 0 : hash_val(x.val); } };
  using SC = std::vector<V>;
  using SM = std::map<i64, V>;
  template <class C> static C scoped(u32) { return C(); }
  static constexpr bool pocca = false, pocs = true;
  static V make(const Op& o) {
    static const u8 t[3] = {1, 3, 4};
    return mv(o.v, FAM ? t[o.ty % 3] : 1);
  }
  static HH box(const G& g) { return HH(g); }
  template <class C> static void emplace(C& c, const Op& o) { c.push_back(mv(o.v, FAM ? 2 : 1)); }
  template <class C> static void emplace_in(C& c, const Op& o) { emplace(c, o); }
  static constexpr bool defable = FAM == 0, ordered = FAM == 0;
};

template <class K> struct World {
  using V = typename K::V;
  using G = typename K::G;
  using Vec = std::vector<V, typename K::template CA<V>>;
  using MapV = std::pair<const i64, V>;
  Vec vec[2];
  std::map<i64, V, std::less<i64>, typename K::template CA<MapV>> map;
  std::set<V, typename K::Less, typename K::template CA<V>> set;
  std::unordered_set<V, typename K::Hash, typename K::Eq, typename K::template CA<V>> uset;
  G agg[2];
  std::array<V, 3> arr;
  std::tuple<V, int, V> tup;
  typename K::HH hh[2];
#if SIM_17
  std::optional<V> opt;
  std::variant<int, V> var;
#endif
  std::vector<Vec, typename K::template CA<Vec>> vv;
  std::deque<V, typename K::template CA<V>> deq;
  std::list<V, typename K::template CA<V>> lst;
  std::forward_list<V, typename K::template CA<V>> fwd;
  std::unordered_map<i64, V, std::hash<i64>, std::equal_to<i64>, typename K::template CA<MapV>> umap;
  std::multiset<V, typename K::Less, typename K::template CA<V>> mset;
  Dfl<V> dfl[2];
  typename K::SC sc[2];
  typename K::SM sm;
  enum { VEC = 0, MAP = 2, SET = 3, USET = 4, AGG = 5, ARR = 7, TUP = 8, HH_ = 9, OPT = 11, VAR = 12, VV = 13, DEQ = 14, LST = 15, FWD = 16, UMAP = 17, MSET = 18, DFL = 19, SC = 21, SM = 23, N = 24 };
  static V mk(i64 v) { Op o; o.v = v; o.arena = 1; o.tag = 3; return K::make(o); }
  World()
      : agg{G(mk(1), mk(2)), G(mk(3), mk(4))}, arr{{mk(5), mk(6), mk(7)}}, tup(mk(8), 0, mk(9)), hh{K::box(agg[0]), K::box(agg[1])},
        dfl{{mk(10), 1, mk(11)}, {mk(10), 1, mk(12)}},
        sc{K::template scoped<typename K::SC>(1), K::template scoped<typename K::SC>(2)}, sm(K::template scoped<typename K::SM>(1)) {}
};

// How many owned objects an operation may make, if known: rearranging handles
// with equal allocators hands objects over (-1: any number).
inline int most_births(const Op& o) {
  switch (o.kind) {
    case K_SORT: case K_ROTATE: case K_REVERSE: case K_SWAP_VEC: case K_MOVE_VEC: case K_ELEM_SWAP: case K_AGG_SWAP: return 0;
    case K_PART: return o.flav == 1 ? -1 : 0;
    case K_VV: return o.flav == 2 ? 0 : -1;
    case K_TUPLE: return o.flav == 2 ? 0 : -1;
    case K_ARRAY: return o.flav == 1 ? 0 : -1;
    case K_PUSH: return o.flav == 0 ? 1 : 0;
    case K_EMPLACE: case K_SELFINS: return 1;
    case K_INSERT: return o.flav == 0 ? 1 : o.flav == 1 ? 0 : -1;
    case K_DEQ: { static const signed char n[] = {1, 0, 1, 0, 1, -1, -1, 0, 0}; return n[o.flav % 9]; }
    case K_LST: { static const signed char n[] = {1, 0, 0, 0, -1, -1, 0, -1, 1, 0, 0, -1}; return n[o.flav % 12]; }
    case K_UMAP: return o.flav % 6 == 2 || o.flav % 6 == 5 ? 0 : -1;
    case K_MSET: return o.flav % 6 == 1 ? 0 : -1;
    case K_DFL: return o.flav % 7 == 1 || o.flav % 7 == 2 ? 0 : -1;
    case K_ALGO: return o.flav % 10 == 4 || o.flav % 10 == 8 || o.flav % 10 == 9 ? 0 : -1;
    case K_SCOPED: { static const signed char n[] = {1, 1, 1, 1, 0, -1, -1, -1, 1, 1, 0, -1, 0}; return n[o.flav % 13]; }
  }
  return -1;
}

// Which components a failed operation may have changed (basic guarantee).
inline u32 fail_mask(const Op& o, std::size_t, bool multi) {
  u32 va = 1u << (o.a & 1), vb = 1u << (o.b & 1);
  u32 ga = 32u << (o.a & 1), gb = 32u << (o.b & 1), ha = 512u << (o.a & 1), hb = 512u << (o.b & 1);
  switch (o.kind) {
    case K_PUSH: case K_EMPLACE: case K_SETINS: case K_MAPERASE: case K_CLEAR: case K_SHARED: case K_SWAP_VEC: case K_MOVE_VEC:
    case K_RESIZE: return 0;
    case K_SELFINS: return o.flav == 0 ? 0 : va;
    case K_ASSIGN_VEC: return o.flav == 1 ? 0 : va;
    case K_INSERT: case K_ERASE: case K_SORT: case K_ROTATE: case K_REVERSE: case K_UNIQUE: case K_PART: case K_ALGO: return va;
    case K_MAPSET: return 0;
    case K_AGG_COPY: return multi ? ga : 0;
    case K_AGG_ASSIGN: return ga;
    case K_AGG_MOVE: case K_AGG_SWAP: return ga | gb;
    case K_NEST:
      switch (o.flav) {
        case 2: return 0;
        case 3: return ga;
        case 6: return multi ? ha : 0;
        default: return ha | hb;
      }
    case K_OPT: return (1u << 11) | (1u << 12) | va;
    case K_ELEM_ASSIGN: return 0;
    case K_ELEM_MOVE: case K_ELEM_SWAP: return multi ? va | vb : 0;
    case K_TUPLE: return 1u << 8 | va;
    case K_ARRAY: return 1u << 7 | va;
    case K_HOLLOW: return 0;
    case K_VV: return o.flav == 0 ? 0 : (1u << 13) | va;
    // pushing at an end is strong, rearranging and erasing in the middle is not
    case K_DEQ: return o.flav % 9 < 3 || o.flav % 9 == 5 ? 0 : 1u << 14;
    case K_LST: {
      static const u8 m[] = {0, 0, 1, 0, 1, 1, 5, 0, 0, 0, 0, 2};
      u32 f = m[o.flav % 12];
      return (f & 1 ? 1u << 15 : 0) | (f & 2 ? 1u << 16 : 0) | (f & 4 ? va : 0);
    }
    case K_UMAP: return 0;
    case K_MSET: return 0;
    case K_DFL: return o.flav % 7 == 0 || (multi && o.flav % 7 < 3) ? 3u << 19 : 0;
    case K_OPT2: return (1u << 11) | (1u << 12) | va;
    case K_SCOPED: {
      u32 sa = 1u << (21 + (o.a & 1)), sb = 1u << (21 + (o.b & 1));
      static const u8 m[] = {0, 0, 0, 1, 1, 1, 3, 1, 0, 0, 0, 1, 3};
      u32 f = m[o.flav % 13];
      return (f & 1 ? sa : 0) | (f & 2 ? sb : 0);
    }
  }
  return ~0u;
}

template <class C> std::size_t pos(const C& c, int w) { return c.empty() ? 0 : (std::size_t)(unsigned)w % c.size(); }

template <class V> V defv() { return V(); }
template <> inline MV defv<MV>() { return mv(DEFV, 1); }

// One operation on a world.  Returns -1 if it does not apply, else a result.
template <class K> int apply(World<K>& w, const Op& o) {
  using V = typename K::V;
  using G = typename K::G;
  auto& va = w.vec[o.a & 1];
  auto& vb = w.vec[o.b & 1];
  bool self = (o.a & 1) == (o.b & 1);
  switch (o.kind) {
    case K_PUSH: {
      if (va.size() > 24) return -1;
      V x = K::make(o);
      if (o.flav == 0) W(va.push_back(x)); else W(va.push_back(std::move(x)));
      return 0;
    }
    case K_EMPLACE: if (va.size() > 24) return -1; W(K::emplace(va, o)); return 0;
    case K_INSERT: {
      if (va.size() > 24) return -1;
      V x = K::make(o);
      std::size_t p = va.empty() ? 0 : (std::size_t)(unsigned)o.w % (va.size() + 1);
      if (o.flav == 0) W(va.insert(va.begin() + p, x)); else if (o.flav == 1) W(va.insert(va.begin() + p, std::move(x)));
      else W(va.insert(va.begin() + p, 2, x));
      return 0;
    }
    case K_SELFINS: {
      if (va.empty() || va.size() > 24) return -1;
      std::size_t p = pos(va, o.w);
      if (o.flav == 0) W(va.push_back(va[p])); else W(va.insert(va.begin() + o.w % 2, va[p]));
      return 0;
    }
    case K_ERASE: {
      if (va.empty()) return -1;
      std::size_t p = pos(va, o.w);
      if (o.flav == 0) W(va.erase(va.begin() + p)); else W(va.erase(va.begin() + p, va.end()));
      return 0;
    }
    case K_RESIZE: {
      std::size_t n = (std::size_t)(unsigned)o.w % 9;
      if (o.flav == 0 && !K::defable && n > va.size()) return -1;
      if (o.flav == 0) {
        if constexpr (K::defable) {
          if (std::is_same<V, MV>::value) { while (va.size() > n) va.pop_back(); while (va.size() < n) va.push_back(defv<V>()); }
          else W(va.resize(n));
        } else W(va.erase(va.begin() + n, va.end()));
      } else { V x = K::make(o); W(va.resize(n, x)); }
      return 0;
    }
    case K_ASSIGN_VEC:
      if (o.flav == 1) { W(auto t = vb; t.swap(va)); }
      else { const auto& c = vb; W(va = c); }
      return 0;
    case K_MOVE_VEC: if (self) return -1; W(va = std::move(vb)); vb.clear(); return 0;
    case K_SWAP_VEC: W(va.swap(vb)); return 0;
    case K_SORT: {
      typename K::Less l;
      if (o.flav == 0) W(std::sort(va.begin(), va.end(), l));
      else if (o.flav == 1) W(std::stable_sort(va.begin(), va.end(), l));
      else W(std::make_heap(va.begin(), va.end(), l); std::sort_heap(va.begin(), va.end(), l));
      return 0;
    }
    case K_ROTATE: if (va.empty()) return -1; { std::size_t p = pos(va, o.w); W(std::rotate(va.begin(), va.begin() + p, va.end())); } return 0;
    case K_REVERSE: W(std::reverse(va.begin(), va.end())); return 0;
    case K_UNIQUE: { typename K::Eq e; W(va.erase(std::unique(va.begin(), va.end(), e), va.end())); return 0; }
    case K_PART: {
      if (va.empty()) return -1;
      V x = K::make(o);
      typename K::Less l;
      if (o.flav == 0) W(std::partition(va.begin(), va.end(), [&](const V& y) { return l(y, x); }));
      else if (o.flav == 1) W(va.erase(std::remove_if(va.begin(), va.end(), [&](const V& y) { return l(y, x); }), va.end()));
      else { std::size_t p = pos(va, o.w); W(std::nth_element(va.begin(), va.begin() + p, va.end(), l)); }
      return 0;
    }
    case K_MAPSET: {
      if (w.map.size() > 24) return -1;
      V x = K::make(o);
      i64 k = o.w;
      auto it = w.map.find(k);
      if (it == w.map.end()) { if (o.flav == 0) W(w.map.insert(std::make_pair(k, x))); else W(w.map.emplace(k, std::move(x))); }
      else if (o.flav == 0) W(it->second = x);
      else W(it->second = std::move(x));
      return 0;
    }
    case K_MAPERASE: W(w.map.erase((i64)o.w)); return 0;
    case K_SETINS: {
      V x = K::make(o);
      if (w.set.size() > 24 || w.uset.size() > 24) return -1;
      int r = 0;
      switch (o.flav % 6) {
        case 0: WE(r, w.set.insert(x).second); break;
        case 1: WE(r, w.set.insert(std::move(x)).second); break;
        case 2: WE(r, w.uset.insert(x).second); break;
        case 3: WE(r, w.uset.insert(std::move(x)).second); break;
        case 4: WE(r, (int)w.set.erase(x)); break;
        case 5: WE(r, (int)w.uset.erase(x)); break;
      }
      return r;
    }
    case K_AGG_COPY: if (self) return -1; W(G t(w.agg[o.b & 1]); w.agg[o.a & 1] = std::move(t)); return 0;
    case K_AGG_ASSIGN: { const G& c = w.agg[o.b & 1]; W(w.agg[o.a & 1] = c); return 0; }
    case K_AGG_MOVE: if (self) return -1; W(w.agg[o.a & 1] = std::move(w.agg[o.b & 1])); w.agg[o.b & 1].v.clear(); return 0;
    case K_AGG_SWAP: if (self) return -1; W(std::swap(w.agg[o.a & 1], w.agg[o.b & 1])); return 0;
    case K_NEST: {
      auto& ha = w.hh[o.a & 1];
      auto& hb = w.hh[o.b & 1];
      switch (o.flav % 7) {
        case 0: { const auto& c = hb; W(ha = c); return 0; }
        case 1: W(ha = std::move(hb)); return 0;
        case 2: { if (ha.valueless_after_move() || ha->v.size() > 12) return -1; V x = K::make(o); W(ha->v.push_back(x)); return 0; }
        case 3: if (hb.valueless_after_move()) return -1; { const G& c = *hb; W(w.agg[o.a & 1] = c); } return 0;
        case 4: { const G& c = w.agg[o.b & 1]; W(ha = c); return 0; }
        case 5: { using std::swap; W(swap(ha, hb)); return 0; }
        case 6: { const auto& c = hb; if (self) return -1; W(typename K::HH t(c); ha = std::move(t)); return 0; }
      }
      return -1;
    }
    case K_OPT:
#if SIM_17
    {
      if (va.empty()) return -1;
      std::size_t p = pos(va, o.w);
      switch (o.flav % 7) {
        case 0: W(w.opt = va[p]); return 0;
        case 1: { bool had = w.opt.has_value(); (void)had; W(w.opt = std::move(va[p])); return 0; }
        case 2: W(w.opt.reset()); return 0;
        case 3: if (!w.opt) return -1; W(va[p] = *w.opt); return 0;
        case 4: W(w.var = va[p]); return 0;
        case 5: W(w.var = 5); return 0;
        case 6: if (w.var.index() != 1) return -1; W(va[p] = std::get<1>(w.var)); return 0;
      }
    }
#endif
      return -1;
    case K_ELEM_ASSIGN: {
      if (va.empty() || vb.empty()) return -1;
      const V& s = vb[pos(vb, (int)(o.v & 0xff))];
      W(va[pos(va, o.w)] = s);
      return 0;
    }
    case K_ELEM_MOVE: {
      if (va.empty() || vb.empty()) return -1;
      V& d = va[pos(va, o.w)];
      V& s = vb[pos(vb, (int)(o.v & 0xff))];
      W(d = std::move(s));
      return 0;
    }
    case K_ELEM_SWAP: {
      if (va.empty() || vb.empty()) return -1;
      V& d = va[pos(va, o.w)];
      V& s = vb[pos(vb, (int)(o.v & 0xff))];
      if (o.flav == 0) { using std::swap; W(swap(d, s)); }
      else if (o.flav == 1) W(std::iter_swap(va.begin() + pos(va, o.w), vb.begin() + pos(vb, (int)(o.v & 0xff))));
      else { if (self) return -1; std::size_t n = std::min(va.size(), vb.size()); W(std::swap_ranges(va.begin(), va.begin() + n, vb.begin())); }
      return 0;
    }
    case K_CLEAR: W(va.clear()); return 0;
    case K_HOLLOW: {
      if (va.empty()) return -1;
      V& s = va[pos(va, o.w)];
      W(V t(std::move(s)));
      return 0;
    }
    case K_TUPLE: {
      if (va.empty()) return -1;
      V& e = va[pos(va, o.w)];
      switch (o.flav % 4) {
        case 0: W(w.tup = std::make_tuple(e, (int)o.w, e)); return 0;
        case 1: W(auto t = w.tup; e = std::get<2>(t)); return 0;
        case 2: W(std::swap(std::get<0>(w.tup), std::get<2>(w.tup))); return 0;
        case 3: W(std::get<0>(w.tup) = std::move(e)); return 0;
      }
      return -1;
    }
    case K_ARRAY: {
      if (va.empty()) return -1;
      V& e = va[pos(va, o.w)];
      switch (o.flav % 4) {
        case 0: W(w.arr.fill(e)); return 0;
        case 1: W(std::rotate(w.arr.begin(), w.arr.begin() + 1, w.arr.end())); return 0;
        case 2: W(auto t = w.arr; e = std::move(t[1])); return 0;
        case 3: W(w.arr[2] = std::move(e)); return 0;
      }
      return -1;
    }
    case K_VV:
      switch (o.flav % 4) {
        case 0: if (w.vv.size() > 4 || va.size() > 8) return -1; W(w.vv.push_back(va)); return 0;
        case 1: if (w.vv.empty()) return -1; W(w.vv.erase(w.vv.begin())); return 0;
        case 2: W(std::reverse(w.vv.begin(), w.vv.end())); return 0;
        case 3: if (w.vv.empty()) return -1; W(va = w.vv.back()); return 0;
      }
      return -1;
    case K_DEQ: {
      auto& d = w.deq;
      if (d.size() > 24 && o.flav % 9 < 5) return -1;
      std::size_t p = pos(d, o.w);
      switch (o.flav % 9) {
        case 0: { V x = K::make(o); W(d.push_back(x)); return 0; }
        case 1: { V x = K::make(o); W(d.push_front(std::move(x))); return 0; }
        case 2: W(K::emplace(d, o)); return 0;
        case 3: if (d.empty()) return -1; if (o.w & 1) W(d.pop_front()); else W(d.pop_back()); return 0;
        case 4: { V x = K::make(o); W(d.insert(d.begin() + p, x)); return 0; }
        case 5: W(auto t = d; d = std::move(t)); return 0;
        case 6: W(d.assign(va.begin(), va.end())); return 0;
        case 7: if (d.empty()) return -1; W(std::rotate(d.begin(), d.begin() + p, d.end())); return 0;
        case 8: if (d.empty()) return -1; W(d.erase(d.begin() + p)); return 0;
      }
      return -1;
    }
    case K_LST: {
      auto& l = w.lst;
      auto& f = w.fwd;
      std::size_t n = l.size(), nf = (std::size_t)std::distance(f.begin(), f.end());
      typename K::Less ls;
      typename K::Eq eq;
      switch (o.flav % 12) {
        case 0: { if (n > 16) return -1; V x = K::make(o); W(l.push_back(x)); return 0; }
        case 1: { if (n > 16) return -1; V x = K::make(o); W(l.push_front(std::move(x))); return 0; }
        case 2: W(l.sort(ls)); return 0;
        case 3: if (n < 2) return -1; W(l.splice(l.begin(), l, std::prev(l.end()))); return 0;
        case 4: { V x = K::make(o); W(l.remove_if([&](const V& y) { return ls(y, x); })); return 0; }
        case 5: W(l.unique(eq)); return 0;
        case 6: { if (n > 16) return -1; W(l.insert(l.end(), std::make_move_iterator(va.begin()), std::make_move_iterator(va.end())); va.clear()); return 0; }
        case 7: W(auto t = l; l = std::move(t)); return 0;
        case 8: { if (nf > 16) return -1; V x = K::make(o); W(f.push_front(x)); return 0; }
        case 9: W(f.reverse()); return 0;
        case 10: { if (nf > 16) return -1; V x = K::make(o); W(f.insert_after(f.before_begin(), std::move(x))); return 0; }
        case 11: if (!nf) return -1; if (o.w & 1) W(f.erase_after(f.before_begin())); else W(f.assign(l.begin(), l.end())); return 0;
      }
      return -1;
    }
    case K_UMAP: {
      auto& u = w.umap;
      i64 k = o.w % 6;
      switch (o.flav % 6) {
        case 0: {
          V x = K::make(o);
          auto it = u.find(k);
          if (it == u.end()) W(u.emplace(k, x)); else W(it->second = x);
          return 0;
        }
        case 1: W(u.erase(k)); return 0;
        case 2: W(u.rehash(u.bucket_count() * 2 + 1)); return 0;
        case 3: W(auto t = u; t.swap(u)); return 0;
        case 4: W(const auto& c = u; auto t = c; u = std::move(t)); return 0;
        case 5: {
#if SIM_17
          if (u.count(k) == 0 || u.count(k + 10)) return -1;
          W(auto nh = u.extract(k); nh.key() = k + 10; u.insert(std::move(nh)));
          return 0;
#else
          return -1;
#endif
        }
      }
      return -1;
    }
    case K_MSET: {
      auto& s = w.mset;
      int r = 0;
      V x = K::make(o);
      if (s.size() > 16 && o.flav % 6 < 2) return -1;
      switch (o.flav % 6) {
        case 0: W(s.insert(x)); return 0;
        case 1: W(s.insert(std::move(x))); return 0;
        case 2: WE(r, (int)s.erase(x)); return r;
        case 3: W(auto t = s; s = std::move(t)); return 0;
        case 4: WE(r, (int)s.count(x)); return r;
        case 5: WE(r, (int)std::distance(s.begin(), s.lower_bound(x))); return r;
      }
      return -1;
    }
    case K_DFL: {
      auto& x = w.dfl[o.a & 1];
      auto& y = w.dfl[o.b & 1];
      switch (o.flav % 7) {
        case 0: { const auto& c = y; W(x = c); return 0; }
        case 1: if (self) return -1; W(x = std::move(y)); return 0;
        case 2: { if (self) return -1; using std::swap; W(swap(x, y)); return 0; }
        case 3: { V v = K::make(o); if (o.w & 1) W(x.a = v); else W(x.b = std::move(v)); return 0; }
        case 4: if (self) return -1; W(Dfl<V> t(y); x = std::move(t)); return 0;
        case 5: case 6:
          if constexpr (K::ordered) {
            bool r = false;
            if (o.flav % 7 == 5) WE(r, x == y); else WE(r, x < y);
            return r;
          }
      }
      return -1;
    }
    case K_ALGO: {
      if (va.empty()) return -1;
      std::size_t p = pos(va, o.w);
      V& e = va[p];
      typename K::Less ls;
      using It = typename World<K>::Vec::iterator;
      switch (o.flav % 10) {
        case 0: { V x = K::make(o); W(V old = std::exchange(e, std::move(x)); va.back() = std::move(old)); return 0; }
        case 1: { W(auto sp = std::make_shared<V>(e); auto sq = std::make_shared<const V>(*sp); va.back() = *sq); return 0; }
        case 2: { W(std::function<V()> f = [e] { return e; }; auto g = f; va.back() = g()); return 0; }
        case 3: {
          W(std::priority_queue<V, std::vector<V>, typename K::Less> q(ls, std::vector<V>(va.begin(), va.end())); for (It i = va.begin(); i != va.end(); ++i) { *i = q.top(); q.pop(); });
          return 0;
        }
        case 4: W(std::stable_sort(va.begin(), va.begin() + p, ls); std::stable_sort(va.begin() + p, va.end(), ls); std::inplace_merge(va.begin(), va.begin() + p, va.end(), ls)); return 0;
        case 5: W(std::move_backward(va.begin(), va.end() - 1, va.end()); va.front() = va.back()); return 0;
        case 6: W(std::copy(va.begin() + 1, va.end(), va.begin())); return 0;
        case 7:
#if SIM_17
          W(std::any t(e); std::any u(t); t = std::move(u); va.back() = std::any_cast<V&&>(std::move(t)));
          return 0;
#else
          return -1;
#endif
        case 8:
#if SIM_CXX20
          if constexpr (!std::is_same<V, MV>::value) static_assert(std::copyable<V> && std::swappable<V> && (!K::ordered || std::equality_comparable<V>));
          W(std::ranges::stable_sort(va, ls));
          return 0;
#else
          return -1;
#endif
        case 9: { W(std::vector<std::pair<int, V>> t; for (std::size_t i = 0; i < va.size(); ++i) t.emplace_back((int)((i * 7 + p) % 5), std::move(va[i])); std::stable_sort(t.begin(), t.end(), [](const std::pair<int, V>& a, const std::pair<int, V>& b) { return a.first < b.first; }); for (std::size_t i = 0; i < va.size(); ++i) va[i] = std::move(t[i].second)); return 0; }
      }
      return -1;
    }
    case K_SCOPED: {
      auto& x = w.sc[o.a & 1];
      auto& y = w.sc[o.b & 1];
      auto& m = w.sm;
      u32 f = o.flav % 13;
      i64 k = o.w % 6;
      if (x.size() > 16 && (f < 4 || f == 11)) return -1;
      switch (f) {
        case 0: { V v = K::make(o); W(x.push_back(v)); return 0; }
        case 1: { V v = K::make(o); W(x.push_back(std::move(v))); return 0; }
        case 2: W(K::emplace_in(x, o)); return 0;
        case 3: { V v = K::make(o); std::size_t p = x.empty() ? 0 : (std::size_t)(unsigned)o.w % (x.size() + 1); W(x.insert(x.begin() + p, v)); return 0; }
        case 4: { if (x.empty()) return -1; std::size_t p = pos(x, o.w); W(x.erase(x.begin() + p)); return 0; }
        case 5: { if (self) return -1; const auto& c = y; W(x = c); return 0; }
        case 6: if (self) return -1; W(x = std::move(y)); y.clear(); return 0;
        case 7: if (self) return -1; W(auto t = y; x = std::move(t)); return 0;
        case 8: { if (m.count(k)) return -1; V v = K::make(o); if (o.w & 1) W(m.emplace(k, v)); else W(m.emplace(k, std::move(v))); return 0; }
        case 9:
          if constexpr (K::defable) {
            if (m.count(k)) return -1;
            if constexpr (std::is_same<V, MV>::value) m[k] = defv<V>(); else W(m[k]);
            return 0;
          }
          return -1;
        case 10: W(m.erase(k)); return 0;
        case 11: if (K::pocca) return -1; W(x.assign(va.begin(), va.end())); return 0;
        case 12: if (!K::pocs) return -1; { using std::swap; W(swap(x, y)); } return 0;
      }
      return -1;
    }
    case K_OPT2:
#if SIM_17
    {
      int r = 0;
      switch (o.flav % 6) {
        case 0: { V x = K::make(o); std::optional<V> t(std::move(x)); W(t.swap(w.opt)); return 0; }
        case 1: { V x = K::make(o); W(w.opt.emplace(x)); return 0; }
        case 2: { std::variant<int, V> t(K::make(o)); W(t.swap(w.var)); return 0; }
        case 3: W(auto t = w.var; w.var = std::move(t)); return 0;
        case 4: if constexpr (K::ordered && SIM_CXX20) { if (va.empty()) return -1; auto& e = va[pos(va, o.w)]; WE(r, w.opt == e ? 1 : w.opt < e ? 2 : w.opt.has_value() ? 3 : 4); return r; } return -1;
        case 5: if constexpr (K::ordered) { V x = K::make(o); std::variant<int, V> t(std::move(x)); WE(r, t == w.var ? 1 : t < w.var ? 2 : 3); return r; } return -1;
      }
    }
#endif
      return -1;
    case K_SHARED:
      if constexpr (K::ordered) {
        bool r = false;
        switch (o.flav % 5) {
          case 0: WE(r, va == vb); return r;
          case 1: WE(r, va < vb); return r;
          case 2: WE(r, w.tup < std::tuple<V, int, V>(w.tup)); return r;
          case 3: WE(r, w.agg[0] == w.agg[1]); return r;
          case 4: WE(r, w.hh[0] == w.hh[1]); return r;
        }
      }
      return -1;
  }
  return -1;
}

template <class K, bool REAL> struct Look {
  using V = typename K::V;
  std::vector<MV> out;
  int valued = 0;
  std::string where;
  static void sep(std::vector<MV>& o, i64 n) { MV m; m.type = 200; m.val = n; m.vl = false; o.push_back(m); }
  void one(const V& v) {
    if constexpr (!REAL) {
      out.push_back(v);
    } else {
      MV m;
      if (!v.valueless_after_move()) {
        const void* ad = std::addressof(*v);
        BlkInfo bi;
        if (!mem_find(ad, bi) || (bi.flags & B_HARNESS)) violate(V_DEAD_USE, "owned object is not in allocator storage [%s]", where.c_str());
        if (!bi.live) violate(V_UAF, "owned object is in released storage [%s]", where.c_str());
        auto al = v.get_allocator();
        if (arena_of(al) != bi.arena) violate(V_WRONG_ARENA, "owned storage belongs to arena %u, handle reports %u [%s]", bi.arena, arena_of(al), where.c_str());
        const Core& c = K::core(v);
        c.use();
        ObjInfo oi;
        if (!obj_by_inst(c.inst, oi) || !oi.alive) violate(V_DEAD_USE, "owned object is not alive [%s]", where.c_str());
        if (oi.obj != K::obj(v)) violate(V_RELOCATION, "owned object moved bytewise [%s]", where.c_str());
        m.vl = false; m.val = c.val; m.type = c.type; m.moved = c.moved;
        ++valued;
      }
      out.push_back(std::move(m));
    }
  }
  template <class C> void same(const C& c, const V& v) {
    if constexpr (REAL) {
      u32 want = arena_of(c.get_allocator().inner_allocator()), got = arena_of(v.get_allocator());
      if (want != got) mismatch(V_ALLOCATOR, false, "an element has the allocator of arena %u, its container hands out that of arena %u [%s]", got, want, where.c_str());
    }
  }
  template <class C> void seq(const C& c) { sep(out, (i64)c.size()); for (auto& x : c) one(x); }
  void agg(const typename K::G& g) { one(g.a); seq(g.v); one(g.b); }
  void comp(const World<K>& w, int i) {
    using Wd = World<K>;
    switch (i) {
      case Wd::VEC: case Wd::VEC + 1: seq(w.vec[i]); break;
      case Wd::MAP: for (auto& e : w.map) { sep(out, e.first); one(e.second); } break;
      case Wd::SET: seq(w.set); break;
      case Wd::USET: {
        std::size_t b = out.size() + 1;
        seq(w.uset);
        std::stable_sort(out.begin() + b, out.end(), [](const MV& x, const MV& y) { return x < y; });
        break;
      }
      case Wd::AGG: case Wd::AGG + 1: agg(w.agg[i - Wd::AGG]); break;
      case Wd::ARR: seq(w.arr); break;
      case Wd::TUP: one(std::get<0>(w.tup)); sep(out, std::get<1>(w.tup)); one(std::get<2>(w.tup)); break;
      case Wd::HH_: case Wd::HH_ + 1: {
        auto& h = const_cast<typename K::HH&>(w.hh[i - Wd::HH_]);
        if (h.valueless_after_move()) sep(out, -1);
        else agg(*h);
        break;
      }
#if SIM_17
      case Wd::OPT: if (w.opt) one(*w.opt); else sep(out, -1); break;
      case Wd::VAR: if (w.var.index() == 1) one(std::get<1>(w.var)); else sep(out, -1); break;
#endif
      case Wd::VV: sep(out, (i64)w.vv.size()); for (auto& x : w.vv) seq(x); break;
      case Wd::DEQ: seq(w.deq); break;
      case Wd::LST: seq(w.lst); break;
      case Wd::FWD: for (auto& x : w.fwd) one(x); break;
      case Wd::UMAP:
        for (i64 k = 0; k < 16; ++k) {
          auto it = w.umap.find(k);
          if (it != w.umap.end()) { sep(out, k); one(it->second); }
        }
        if (std::distance(w.umap.begin(), w.umap.end()) != (std::ptrdiff_t)w.umap.size()) violate(V_VALUE, "unordered_map is broken");
        break;
      case Wd::MSET: seq(w.mset); break;
      case Wd::DFL: case Wd::DFL + 1: { auto& d = w.dfl[i - Wd::DFL]; one(d.a); sep(out, d.n); one(d.b); break; }
      case Wd::SC: case Wd::SC + 1: { auto& c = w.sc[i - Wd::SC]; seq(c); for (auto& e : c) same(c, e); break; }
      case Wd::SM: for (auto& e : w.sm) { sep(out, e.first); one(e.second); same(w.sm, e.second); } break;
    }
  }
};

template <class K> struct RunC {
  using P = Plain<K::fam>;
  // Rebuilds component i of the plain world from the real one.
  template <class D, class S> static void seq(D& d, const S& s) {
    d.clear();
    for (auto& x : s) d.push_back(val(x));
  }
  static MV val(const typename K::V& v) {
    Look<K, true> l;
    l.one(v);
    return l.out[0];
  }
  static void agg(typename P::G& d, const typename K::G& s) { d.a = val(s.a); d.b = val(s.b); seq(d.v, s.v); }
  static void sync(World<P>& p, const World<K>& w, int i) {
    using Wd = World<K>;
    switch (i) {
      case Wd::VEC: case Wd::VEC + 1: seq(p.vec[i], w.vec[i]); break;
      case Wd::MAP: p.map.clear(); for (auto& e : w.map) p.map.emplace(e.first, val(e.second)); break;
      case Wd::SET: p.set.clear(); for (auto& e : w.set) p.set.insert(val(e)); break;
      case Wd::USET: p.uset.clear(); for (auto& e : w.uset) p.uset.insert(val(e)); break;
      case Wd::AGG: case Wd::AGG + 1: agg(p.agg[i - Wd::AGG], w.agg[i - Wd::AGG]); break;
      case Wd::ARR: for (int k = 0; k < 3; ++k) p.arr[k] = val(w.arr[k]); break;
      case Wd::TUP: std::get<0>(p.tup) = val(std::get<0>(w.tup)); std::get<1>(p.tup) = std::get<1>(w.tup); std::get<2>(p.tup) = val(std::get<2>(w.tup)); break;
      case Wd::HH_: case Wd::HH_ + 1: {
        auto& h = const_cast<typename K::HH&>(w.hh[i - Wd::HH_]);
        auto& d = p.hh[i - Wd::HH_];
        if (h.valueless_after_move()) d = Box<typename P::G>();
        else { typename P::G g((MV()), MV()); agg(g, *h); d = g; }
        break;
      }
#if SIM_17
      case Wd::OPT: p.opt.reset(); if (w.opt) p.opt = val(*w.opt); break;
      case Wd::VAR: if (w.var.index() == 1) p.var = val(std::get<1>(w.var)); else p.var = 5; break;
#endif
      case Wd::VV: p.vv.clear(); for (auto& x : w.vv) { p.vv.emplace_back(); seq(p.vv.back(), x); } break;
      case Wd::DEQ: seq(p.deq, w.deq); break;
      case Wd::LST: seq(p.lst, w.lst); break;
      case Wd::FWD: { p.fwd.clear(); auto at = p.fwd.before_begin(); for (auto& x : w.fwd) at = p.fwd.insert_after(at, val(x)); break; }
      case Wd::UMAP: p.umap.clear(); for (auto& e : w.umap) p.umap.emplace(e.first, val(e.second)); break;
      case Wd::MSET: p.mset.clear(); for (auto& e : w.mset) p.mset.insert(val(e)); break;
      case Wd::DFL: case Wd::DFL + 1: { auto& d = p.dfl[i - Wd::DFL]; auto& x = w.dfl[i - Wd::DFL]; d.a = val(x.a); d.n = x.n; d.b = val(x.b); break; }
      case Wd::SC: case Wd::SC + 1: seq(p.sc[i - Wd::SC], w.sc[i - Wd::SC]); break;
      case Wd::SM: p.sm.clear(); for (auto& e : w.sm) p.sm.emplace(e.first, val(e.second)); break;
    }
  }

  static void run(const Op* ops, int n, u64 knobs) {
    bool multi = knobs & 16;
    {
      World<K> w;
      World<P> m;
      for (int i = 0; i < n; ++i) {
        Op o = ops[i];
        if (o.kind < K_FIRST || o.kind >= K_LAST) continue;
        std::string txt = op_text(o);
        if (!txt.empty()) txt.pop_back();
        int r = -2;
        int failed = guarded(o, i, true, [&] { r = apply(w, o); });
        u32 firedLate = cx->firedLate;
        Point fpnt = cx->firedPoint;
        u32 births = cx->births, deaths = cx->deaths;
        if (!failed && r == -1) { if (g_rec) g_rec->skipped++; continue; }
        u32 mask = 0;
        int rm = r;
        if (failed) {
          mask = fail_mask(o, 0, multi);
          if (firedLate && fpnt == P_CASSIGN) mask |= touched(o);
          if (fpnt == P_HASH) mask |= 1u << World<K>::USET;
        } else {
          rm = apply(m, o);
          if (rm != r) mismatch(V_COMPARE, false, "result %d, plain values give %d [%s]", r, rm, txt.c_str());
          int most = multi ? -1 : most_births(o);
          if (most >= 0 && births > (u32)most) mismatch(V_COUNTS, false, "%u owned objects made, at most %d expected: elements are moved, not remade [%s]", births, most, txt.c_str());
          bool ends = o.kind == K_MOVE_VEC || (o.kind == K_DFL && o.flav % 7 == 1) || (o.kind == K_DEQ && (o.flav % 9 == 3 || o.flav % 9 == 8)) || (o.kind == K_SCOPED && (o.flav % 13 == 4 || o.flav % 13 == 10));
          if (most == 0 && deaths && !ends) mismatch(V_COUNTS, false, "%u owned objects destroyed by an operation that only moves them [%s]", deaths, txt.c_str());
        }
        int valued = 0;
        std::string dig;
        for (int c = 0; c < World<K>::N; ++c) {
          Look<K, true> a;
          a.where = txt;
          a.comp(w, c);
          valued += a.valued;
          if (!(mask >> c & 1)) {
            Look<P, false> b;
            b.comp(m, c);
            bool lenient = false;
            if (a.out.size() != b.out.size())
              mismatch(V_VALUE, false, "component %d has %d parts, expected %d, %s [%s]", c, (int)a.out.size(), (int)b.out.size(), failed ? "after failure" : "after success", txt.c_str());
            else
              for (std::size_t k = 0; k < a.out.size(); ++k) {
                const MV &x = a.out[k], &y = b.out[k];
                if (x.vl == y.vl && (x.vl || (x.val == y.val && x.type == y.type))) continue;
                if (multi && y.vl && x.moved) { lenient = true; continue; }  // moved-from between unequal allocators
                mismatch(x.vl != y.vl ? V_VALUELESS : x.type != y.type ? V_TYPE : V_VALUE, false, "component %d part %d is %s%lld, expected %s%lld, %s [%s]", c, (int)k,
                         x.vl ? "valueless/" : "", (long long)x.val, y.vl ? "valueless/" : "", (long long)y.val, failed ? "after failure" : "after success", txt.c_str());
                lenient = true;
              }
            if (lenient || a.out.size() != b.out.size()) sync(m, w, c);
          } else sync(m, w, c);
          if (g_digest && c != World<K>::OPT && c != World<K>::VAR) {
            char q[60];
            for (auto& x : a.out) {
              snprintf(q, sizeof q, x.vl ? " -" : " %u:%lld", x.type, (long long)x.val);
              dig += q;
            }
            dig += "|";
          }
        }
        if ((int)obj_live_lib() != valued) violate((int)obj_live_lib() > valued ? V_LEAK_OBJ : V_DEAD_USE, "%u live owned objects, handles own %d [%s]", obj_live_lib(), valued, txt.c_str());
        stat_op(o, failed, 0x5400 + K::fam + 2 * (w.vec[o.a & 1].size() > 3) + 4 * multi + 8 * std::is_same<typename std::allocator_traits<typename K::A>::is_always_equal, std::true_type>::value);
        if (g_digest) {
          char q[120];
          snprintf(q, sizeof q, "%d %s %s r=%d exc=%s made=%u gone=%u", i, op_name[o.kind], failed ? "failed" : "ok", r, failed ? point_name[fpnt] : "-", births, deaths);
          digest_line((q + dig + "\n").c_str());
        }
      }
    }
    if (obj_live_total()) violate(V_LEAK_OBJ, "%u owned objects remain at the end", obj_live_total());
    if (mem_live_lib()) violate(V_LEAK_MEM, "%u allocations remain at the end", mem_live_lib());
    mem_check_redzones();
  }
  static u32 touched(const Op& o) {
    u32 va = 1u << (o.a & 1);
    switch (o.kind) {
      case K_MAPSET: return 1u << 2;
      case K_NEST: return 1u << 9 | 1u << 10;
      case K_UMAP: return 1u << 17;
      case K_DEQ: return 1u << 14;
      case K_LST: return 3u << 15;
      case K_DFL: return 3u << 19;
      case K_SCOPED: return 3u << 21;
      default: return va;
    }
  }
};
#define CFG_C(ID, NAME, KIND, FLAGS)                                                                 \
  static ScenInfo ID##_s = {NAME, 4, KIND<(FLAGS)>::fam, (FLAGS), 0, nullptr, RunC<KIND<(FLAGS)>>::run}; \
  static Reg ID##_reg(nullptr, &ID##_s);
}  // namespace sim
#endif
