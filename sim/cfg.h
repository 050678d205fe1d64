// Executes one operation of the library for a given handle configuration.
#ifndef SIM_CFG_H
#define SIM_CFG_H
#include <algorithm>
#include <memory>
#include <type_traits>
#include <utility>

#include "alloc.h"
#include "elems.h"
#include "env.h"
#include "ops.h"
// Each header has its own copy of the shared helpers, and the one included
// first provides them: it is the header of the handle under test.
#if (CFG >= 9 && CFG <= 15) || CFG == 18 || CFG == 19 || (CFG >= 24 && CFG <= 27) || CFG == 29 || \
    CFG == 36 || CFG == 37 || CFG == 39 || CFG == 41
#if SIM_CXX20
#include "polymorphic.h"
#include "indirect.h"
#else
#include "polymorphic_cxx14.h"
#include "indirect_cxx14.h"
#endif
#elif SIM_CXX20
#include "indirect.h"
#include "polymorphic.h"
#else
#include "indirect_cxx14.h"
#include "polymorphic_cxx14.h"
#endif

namespace sim {
#if SIM_CXX20
using InPlace = std::in_place_t;
template <class U> using InPlaceType = std::in_place_type_t<U>;
#else
using InPlace = xyz::in_place_t;
template <class U> using InPlaceType = xyz::in_place_type_t<U>;
#endif

template <class...> struct mkvoid { using type = void; };
template <class... T> using void_t_ = typename mkvoid<T...>::type;
#define SIM_DETECT(NAME, EXPR)                                              \
  template <class T, class = void> struct NAME : std::false_type {};        \
  template <class T> struct NAME<T, void_t_<decltype(EXPR)>> : std::true_type {};
SIM_DETECT(has_eq, std::declval<const T&>() == std::declval<const T&>())
SIM_DETECT(has_ne, std::declval<const T&>() != std::declval<const T&>())
SIM_DETECT(has_lt, std::declval<const T&>() < std::declval<const T&>())
SIM_DETECT(has_gt, std::declval<const T&>() > std::declval<const T&>())
SIM_DETECT(has_xeq, std::declval<const T&>() == std::declval<const Other&>())
SIM_DETECT(has_hash, std::hash<T>{}(std::declval<const T&>()))

struct Win {
  Win() { win_begin(); }
  ~Win() { win_end(); }
};
// Runs library code inside an operation window.
#define W(...) do { Win w_; __VA_ARGS__; } while (0)
#define WE(var, ...) do { Win w_; var = (__VA_ARGS__); } while (0)

template <class T> struct ArgRec {  // records what happened to a value argument
  T& t; Res& r;
  ArgRec(T& x, Res& y) : t(x), r(y) { r.hasArg = true; r.argInst = core_of(t).inst; }
  ~ArgRec() { win_end(); const Core& c = core_of(t); r.argVal = c.val; r.argMoved = c.moved; }
  static const Core& core_of(const T& x) { return x.core; }
};
struct KeyRec {
  Key& k; Res& r;
  KeyRec(Key& x, Res& y) : k(x), r(y) { r.keyConsumed = 0; }
  ~KeyRec() { win_end(); r.keyConsumed = k.consumed; }
};

#if SIM_CXX20
template <class O> int ord_code(O o) {
  int cat = std::is_same_v<O, std::strong_ordering> ? 0 : std::is_same_v<O, std::weak_ordering> ? 1 : 2;
  int c = o < 0 ? 0 : o > 0 ? 2 : o == 0 ? 1 : 3;
  return c + 4 * cat;
}
#endif

template <class T> struct takes_list_refs : std::is_constructible<T, std::initializer_list<int>, Key, int&, Tok&, Tok, const Tok&> {};
template <class T, class = void> struct nc_copy : std::false_type {};
template <class T> struct nc_copy<T, decltype((void)T::NonConstCopy)> : std::true_type {};
template <class T> struct takes_refs : std::is_constructible<T, Key, int&, Tok&, Tok, const Tok&> {};
// Construction from arguments of every category, checked afterwards.
struct Args {
  const Op& o;
  int w;
  Tok a, b, c;
  explicit Args(const Op& x) : o(x), w(x.w) {}
  void check() const {
    if (w != o.w + 1000 || !a.ok() || !b.ok() || !c.ok()) mismatch(V_ARG, false, "an argument did not reach the constructor as given");
  }
};

#define LIST_ARG(v) {(int)((v) & 0x3ff), (int)(((v) >> 10) & 0x3ff), 5}

template <class C> struct ExecI {
  using T = typename C::T;
  using A = typename C::A;
  using H = typename C::H;
  static H& h(void* p) { return *static_cast<H*>(p); }
  static A mk(const Op& o) { return Mk<A>::make(o.arena, o.tag); }
  static constexpr bool copyable = std::is_copy_constructible<T>::value;
  static constexpr bool defable = std::is_default_constructible<T>::value;
  static constexpr bool adef = std::is_default_constructible<A>::value;
  static constexpr bool keyed = std::is_constructible<T, const Key&, int>::value;
  static constexpr bool listed = std::is_constructible<T, std::initializer_list<int>, Key&&>::value && keyed;
  static constexpr bool cas = std::is_copy_assignable<T>::value;
  static constexpr bool mas = std::is_move_assignable<T>::value;
  static constexpr bool kas = std::is_assignable<T&, const Key&>::value && std::is_assignable<T&, Key>::value &&
                              std::is_constructible<T, Key>::value && !std::is_same<T, VoidAssign>::value;  // (converts by way of a temporary)
  static constexpr bool fal = cas;
  static constexpr bool far_ = mas;
  static constexpr bool greedy = std::is_same<T, Greedy>::value;

  template <class X, class Y> static bool compare(const X& x, const Y& y, const Op& o, Res& r) {
    bool res = false;
    switch (o.flav) {
      case 0:
        if constexpr (has_eq<T>::value) { WE(res, x == y); r.cmp = res; return true; }
        return false;
      case 1:
        if constexpr (has_ne<T>::value) { WE(res, x != y); r.cmp = res; return true; }
        return false;
      case 2:
        if constexpr (has_lt<T>::value) { WE(res, x < y); r.cmp = res; return true; }
        return false;
      case 3:
        if constexpr (has_lt<T>::value && (SIM_CXX20 || has_gt<T>::value)) { WE(res, x > y); r.cmp = res; return true; }
        return false;
      case 4:
        if constexpr (has_lt<T>::value && (SIM_CXX20 || has_gt<T>::value)) { WE(res, x <= y); r.cmp = res; return true; }
        return false;
      case 5:
        if constexpr (has_lt<T>::value && (SIM_CXX20 || has_gt<T>::value)) { WE(res, x >= y); r.cmp = res; return true; }
        return false;
#if SIM_CXX20
      case 6:
        if constexpr (has_lt<T>::value) {
          int c = 0;
          WE(c, ord_code(x <=> y));
          r.cmp = c;
          return true;
        }
        return false;
#endif
    }
    return false;
  }

  static bool exec(const Op& o, void* pa, void* pb, Res& r) {
    switch (o.kind) {
      case O_DEF:
        if constexpr (defable && adef) { W(::new (pa) H()); return true; }
        return false;
      case O_A_DEF:
        if constexpr (defable) { A al = mk(o); W(::new (pa) H(std::allocator_arg, al)); return true; }
        return false;
      case O_VAL_L:
        if constexpr (copyable && adef) { 
          if constexpr (!nc_copy<T>::value)
            if (o.flav == 1) { T x{Key(o.v)}; ArgRec<T> ar(x, r); W(::new (pa) H(x)); return true; }
          const T x{Key(o.v)}; ArgRec<const T> ar(x, r); W(::new (pa) H(x)); return true; }
        return false;
      case O_VAL_R:
        if constexpr (adef) { T x{Key(o.v)}; ArgRec<T> ar(x, r); W(::new (pa) H(std::move(x))); return true; }
        return false;
      case O_A_VAL_L:
        if constexpr (copyable) { A al = mk(o); 
          if constexpr (!nc_copy<T>::value)
            if (o.flav == 1) { T x{Key(o.v)}; ArgRec<T> ar(x, r); W(::new (pa) H(std::allocator_arg, al, x)); return true; }
          const T x{Key(o.v)}; ArgRec<const T> ar(x, r); W(::new (pa) H(std::allocator_arg, al, x)); return true; }
        return false;
      case O_A_VAL_R: {
        A al = mk(o); T x{Key(o.v)}; ArgRec<T> ar(x, r);
        W(::new (pa) H(std::allocator_arg, al, std::move(x)));
        return true;
      }
#if SIM_CXX20
      case O_KEY_L:
        if constexpr (adef) { Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) W(::new (pa) H(k)); else W(::new (pa) H(const_cast<const Key&>(k))); return true; }
        return false;
      case O_KEY_R:
        if constexpr (adef) { Key k(o.v); KeyRec kr(k, r); W(::new (pa) H(std::move(k))); return true; }
        return false;
      case O_A_KEY_L: { A al = mk(o); Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) W(::new (pa) H(std::allocator_arg, al, k)); else W(::new (pa) H(std::allocator_arg, al, const_cast<const Key&>(k))); return true; }
      case O_A_KEY_R: { A al = mk(o); Key k(o.v); KeyRec kr(k, r); W(::new (pa) H(std::allocator_arg, al, std::move(k))); return true; }
#endif
      case O_INPL_L:
        if constexpr (adef && keyed) { Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) { int w = o.w; W(::new (pa) H(InPlace{}, k, w)); } else W(::new (pa) H(InPlace{}, const_cast<const Key&>(k), o.w)); return true; }
        return false;
      case O_INPL_R:
        if constexpr (adef && takes_refs<T>::value)
          if (o.flav == 1) { Key k(o.v); KeyRec kr(k, r); Args x(o); W(::new (pa) H(InPlace{}, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
        if constexpr (adef && keyed) { Key k(o.v); KeyRec kr(k, r); W(::new (pa) H(InPlace{}, std::move(k), o.w)); return true; }
        return false;
      case O_A_INPL_L:
        if constexpr (keyed) { A al = mk(o); Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) { int w = o.w; W(::new (pa) H(std::allocator_arg, al, InPlace{}, k, w)); } else W(::new (pa) H(std::allocator_arg, al, InPlace{}, const_cast<const Key&>(k), o.w)); return true; }
        return false;
      case O_A_INPL_R:
        if constexpr (takes_refs<T>::value)
          if (o.flav == 1) { A al = mk(o); Key k(o.v); KeyRec kr(k, r); Args x(o); W(::new (pa) H(std::allocator_arg, al, InPlace{}, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
        if constexpr (keyed) { A al = mk(o); Key k(o.v); KeyRec kr(k, r); W(::new (pa) H(std::allocator_arg, al, InPlace{}, std::move(k), o.w)); return true; }
        return false;
      case O_INPL1:
        if constexpr (adef) { Key k(o.v); KeyRec kr(k, r); if constexpr (keyed) if (o.flav == 1) { W(::new (pa) H(InPlace{}, k)); return true; } W(::new (pa) H(InPlace{}, std::move(k))); return true; }
        return false;
      case O_A_INPL1: { A al = mk(o); Key k(o.v); KeyRec kr(k, r); if constexpr (keyed) if (o.flav == 1) { W(::new (pa) H(std::allocator_arg, al, InPlace{}, k)); return true; } W(::new (pa) H(std::allocator_arg, al, InPlace{}, std::move(k))); return true; }
      case O_LIST:
        if constexpr (adef && listed && takes_list_refs<T>::value)
          if (o.flav == 1) { Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); Args x(o); W(::new (pa) H(InPlace{}, l, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
        if constexpr (adef && listed)
          if (o.flav == 2) { Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(InPlace{}, l, k)); return true; }
        if constexpr (adef && listed) { Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(InPlace{}, l, std::move(k))); return true; }
        return false;
      case O_A_LIST:
        if constexpr (listed && takes_list_refs<T>::value)
          if (o.flav == 1) { A al = mk(o); Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); Args x(o); W(::new (pa) H(std::allocator_arg, al, InPlace{}, l, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
        if constexpr (listed)
          if (o.flav == 2) { A al = mk(o); Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(std::allocator_arg, al, InPlace{}, l, k)); return true; }
        if constexpr (listed) { A al = mk(o); Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(std::allocator_arg, al, InPlace{}, l, std::move(k))); return true; }
        return false;
      case O_COPY:
        if constexpr (copyable) {
          if (o.flav == 0) W(::new (pa) H(const_cast<const H&>(h(pb))));
          else if (o.flav == 1) W(::new (pa) H(h(pb)));
          else W(::new (pa) H(std::move(const_cast<const H&>(h(pb)))));
          return true;
        }
        return false;
      case O_A_COPY:
        if constexpr (copyable) {
          A al = mk(o);
          if (o.flav == 0) W(::new (pa) H(std::allocator_arg, al, const_cast<const H&>(h(pb))));
          else if (o.flav == 1) W(::new (pa) H(std::allocator_arg, al, h(pb)));
          else W(::new (pa) H(std::allocator_arg, al, std::move(const_cast<const H&>(h(pb)))));
          return true;
        }
        return false;
      case O_MOVE: W(::new (pa) H(std::move(h(pb)))); return true;
      case O_A_MOVE: { A al = mk(o); W(::new (pa) H(std::allocator_arg, al, std::move(h(pb)))); return true; }
      case O_DTOR: W(h(pa).~H()); return true;
      case O_CASSIGN:
        if constexpr (copyable) {
          H* res = nullptr;
          if (o.flav == 0) WE(res, std::addressof(h(pa) = const_cast<const H&>(h(pb))));
          else if (o.flav == 1) WE(res, std::addressof(h(pa) = h(pb)));
          else WE(res, std::addressof(h(pa) = std::move(const_cast<const H&>(h(pb)))));
          if (res != pa) violate(V_ACCESS, "assignment does not return the assigned handle");
          return true;
        }
        return false;
      case O_MASSIGN: {
        H* res = nullptr;
        WE(res, std::addressof(h(pa) = std::move(h(pb))));
        if (res != pa) violate(V_ACCESS, "assignment does not return the assigned handle");
        return true;
      }
      case O_FA_L:
        if constexpr (copyable && fal && !nc_copy<T>::value)
          if (o.flav == 1) { T x{Key(o.v)}; ArgRec<T> ar(x, r); W(h(pa) = x); return true; }
        if constexpr (copyable && fal) { const T x{Key(o.v)}; ArgRec<const T> ar(x, r); H* res = nullptr; WE(res, std::addressof(h(pa) = x)); if (res != pa) violate(V_ACCESS, "assignment does not return the assigned handle"); return true; }
        return false;
      case O_FA_R:
        if constexpr (far_) { T x{Key(o.v)}; ArgRec<T> ar(x, r); W(h(pa) = std::move(x)); return true; }
        return false;
      case O_FA_KL:
        if constexpr (kas && !greedy) { Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) W(h(pa) = k); else W(h(pa) = const_cast<const Key&>(k)); return true; }
        return false;
      case O_FA_KR:
        if constexpr (kas && !greedy) { Key k(o.v); KeyRec kr(k, r); W(h(pa) = std::move(k)); return true; }
        return false;
      case O_FA_ALIAS_L:
        if constexpr (copyable && fal) { const T& x = *h(pb); W(h(pa) = x); return true; }
        return false;
      case O_FA_ALIAS_R:
        if constexpr (far_) { T& x = *h(pb); W(h(pa) = std::move(x)); return true; }
        return false;
      case O_SWAP:
        if (o.flav == 0) { W(h(pa).swap(h(pb))); return true; }
        if (o.flav == 1) { using std::swap; W(swap(h(pa), h(pb))); return true; }
        W(std::swap(h(pa), h(pb)));
        return true;
      case O_ROUNDTRIP: W(H tmp(std::move(h(pa))); h(pa) = std::move(tmp)); return true;
      case O_VAL_ALIAS_L:
        if constexpr (copyable) { A al = mk(o); const T& x = *const_cast<const H&>(h(pb)); W(::new (pa) H(std::allocator_arg, al, x)); return true; }
        return false;
      case O_VAL_ALIAS_R: { A al = mk(o); W(::new (pa) H(std::allocator_arg, al, *std::move(h(pb)))); return true; }
      case O_MOVE_OUT: W(T x(*std::move(h(pa)))); return true;
      case O_SET:
        if (o.flav == 0) W((*h(pa)).core.set(o.v)); else W(h(pa)->core.set(o.v));
        return true;
      case O_GET: {
        if (o.ty & 0x80) {  // through const access only: may run in several threads at once
          const H& cx = h(pa);
          Win w_;
          if (cx.valueless_after_move()) return true;
          r.addrs[0] = std::addressof(*cx);
          r.addrs[1] = std::addressof(*cx.operator->());
          { const T&& t = *std::move(cx); r.addrs[2] = std::addressof(t); }
          A al = cx.get_allocator();
          (void)al;
          r.naddrs = 3;
          return true;
        }
        H& x = h(pa);
        const H& cxh = x;
        Win w_;
        r.addrs[0] = std::addressof(*x);
        r.addrs[1] = std::addressof(*cxh);
        { T&& t = *std::move(x); r.addrs[2] = std::addressof(t); }
        { const T&& t = *std::move(cxh); r.addrs[3] = std::addressof(t); }
        r.addrs[4] = std::addressof(x.operator->()->core) ? std::addressof(*x.operator->()) : nullptr;
        r.addrs[5] = std::addressof(*cxh.operator->());
        r.naddrs = 6;
        return true;
      }
      case O_CMP: {
        const H& x = h(pa); const H& y = h(pb);
        return compare(x, y, o, r);
      }
      case O_CMPV:
        if constexpr (has_eq<T>::value || has_lt<T>::value) { const H& x = h(pa); const T y{Key(o.v)}; return compare(x, y, o, r); }
        return false;
      case O_VCMP:
        if constexpr (has_eq<T>::value || (has_lt<T>::value && SIM_CXX20)) { const T x{Key(o.v)}; const H& y = h(pa); return compare(x, y, o, r); }
        return false;
      case O_XCMP:
        if constexpr (has_xeq<T>::value) {
          using A2 = typename std::allocator_traits<A>::template rebind_alloc<Other>;
          using H2 = xyz::indirect<Other, A2>;
          H2 y(std::allocator_arg, Mk<A2>::make(2, 1), Other{Key(o.v)});
          if (o.ty & 1) { H2 z(std::move(y)); if (!(o.ty & 2)) return compare((const H&)h(pa), (const H2&)y, o, r); else return compare((const H2&)y, (const H&)h(pa), o, r); }
          if (!(o.ty & 2)) return compare((const H&)h(pa), (const H2&)y, o, r);
          return compare((const H2&)y, (const H&)h(pa), o, r);
        }
        return false;
      case O_ACMP:  // same owned type, different allocator type
        if constexpr (C::acmp && (has_eq<T>::value || has_lt<T>::value)) {
          using H2 = xyz::indirect<T, MinAlloc<T>>;
          H2 y(std::allocator_arg, MinAlloc<T>(), T{Key(o.v)});
          if (o.ty & 1) { H2 z(std::move(y)); if (!(o.ty & 2)) return compare((const H&)h(pa), (const H2&)y, o, r); else return compare((const H2&)y, (const H&)h(pa), o, r); }
          if (!(o.ty & 2)) return compare((const H&)h(pa), (const H2&)y, o, r);
          return compare((const H2&)y, (const H&)h(pa), o, r);
        }
        return false;
      case O_HASH:
        if constexpr (has_hash<T>::value) { const H& x = h(pa); std::size_t v = 0; WE(v, std::hash<H>{}(x)); r.hash = v; return true; }
        return false;
    }
    return false;
  }
  static void observe(const void* p, Obs& b) {
    const H& x = *static_cast<const H*>(p);
    b.valueless = x.valueless_after_move();
    A al = x.get_allocator();
    b.arena = arena_of(al); b.tag = tag_of(al);
    if (!b.valueless) {
      const T& t = *x;
      b.addr = std::addressof(t);
      b.obj = b.addr;
      t.core.use();
      b.type = t.core.type; b.val = t.core.val; b.inst = t.core.inst; b.moved = t.core.moved;
    }
  }
  static constexpr u32 caps() {
    return (defable ? C_DEF : 0) | (copyable ? C_COPY : 0) | (cas ? C_CASSIGN : 0) | (mas ? C_MASSIGN : 0) |
           (SIM_CXX20 ? C_KCTOR : 0) | (kas && !greedy ? C_KASSIGN : 0) | (has_eq<T>::value ? C_EQ : 0) | (has_lt<T>::value ? C_LT : 0) |
           (has_lt<T>::value && (SIM_CXX20 || has_gt<T>::value) ? C_ALLORD : 0) | (has_hash<T>::value ? C_HASH : 0) |
           (std::is_same<T, Partial>::value ? C_PARTIAL : 0) | (std::is_same<T, LessOnly>::value ? C_DECADE : 0) | (std::is_same<T, Weak>::value ? C_WEAK : 0) |
           (has_xeq<T>::value ? C_XCMP : 0) | (adef ? C_ADEF : 0) | (SIM_CXX20 ? C_3WAY : 0) |
           (C::acmp && (has_eq<T>::value || has_lt<T>::value) ? C_EQX : 0) |
           (Mk<A>::flags & A_MIN ? 0 : C_TAGS) | ((Mk<A>::flags & (A_MIN | A_FINAL)) == A_MIN || (Mk<A>::flags & A_FANCY) ? 0 : C_CONS) | (keyed ? C_KEYED : 0) |
           (listed ? C_LIST : 0) | (copyable && fal ? C_FA : 0) | (far_ ? C_AFA : 0);
  }
  static NxTraits nx() {
    NxTraits n{};
    n.movector = std::is_nothrow_move_constructible<H>::value;
    n.moveassign = std::is_nothrow_move_assignable<H>::value;
    n.swap = noexcept(std::declval<H&>().swap(std::declval<H&>()));
    n.fswap = noexcept(swap(std::declval<H&>(), std::declval<H&>()));
    n.dtor = std::is_nothrow_destructible<H>::value;
    n.amove = std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, H>::value;
    n.valueless = noexcept(std::declval<const H&>().valueless_after_move());
    n.alloc = noexcept(std::declval<const H&>().get_allocator());
    n.deref = noexcept(*std::declval<H&>()) && noexcept(*std::declval<const H&>()) && noexcept(*std::declval<H&&>()) && noexcept(*std::declval<const H&&>());
    n.arrow = noexcept(std::declval<H&>().operator->()) && noexcept(std::declval<const H&>().operator->());
    return n;
  }
  static CfgInfo info(const char* name) {
    CfgInfo i{};
    i.name = name; i.fam = 0; i.aflags = Mk<A>::flags; i.caps = caps(); i.ntypes = 1;
    i.hsize = sizeof(H); i.halign = alignof(H); i.nx = nx();
    i.movecopies_mask = std::is_same<T, CopyOnly>::value ? 2 : 0;
    i.nxmove_mask = std::is_nothrow_move_constructible<T>::value ? 2 : 0;
    i.masscopies = std::is_same<T, CopyOnly>::value || std::is_same<T, VoidAssign>::value;
    i.exec = exec; i.observe = observe;
    return i;
  }
};

template <class... Us> struct TL { static constexpr int n = sizeof...(Us); };

template <class C> struct ExecP {
  using T = typename C::T;
  using A = typename C::A;
  using H = typename C::H;
  static H& h(void* p) { return *static_cast<H*>(p); }
  static A mk(const Op& o) { return Mk<A>::make(o.arena, o.tag); }
  static constexpr bool adef = std::is_default_constructible<A>::value;
  static constexpr bool defable = C::concrete;

  template <class U> static bool ctor(const Op& o, void* pa, Res& r) {
    using IP = InPlaceType<U>;
    switch (o.kind) {
      case O_VAL_L:
        if constexpr (adef) { 
          if constexpr (!nc_copy<U>::value)
            if (o.flav == 1) { U x{Key(o.v)}; ArgRec<U> ar(x, r); W(::new (pa) H(x)); return true; }
          const U x{Key(o.v)}; ArgRec<const U> ar(x, r); W(::new (pa) H(x)); return true; }
        return false;
      case O_VAL_R:
        if constexpr (adef) { U x{Key(o.v)}; ArgRec<U> ar(x, r); W(::new (pa) H(std::move(x))); return true; }
        return false;
      case O_A_VAL_L: { A al = mk(o); 
          if constexpr (!nc_copy<U>::value)
            if (o.flav == 1) { U x{Key(o.v)}; ArgRec<U> ar(x, r); W(::new (pa) H(std::allocator_arg, al, x)); return true; }
          const U x{Key(o.v)}; ArgRec<const U> ar(x, r); W(::new (pa) H(std::allocator_arg, al, x)); return true; }
      case O_A_VAL_R: { A al = mk(o); U x{Key(o.v)}; ArgRec<U> ar(x, r); W(::new (pa) H(std::allocator_arg, al, std::move(x))); return true; }
      case O_INPL_L:
        if constexpr (adef) { Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) { int w = o.w; W(::new (pa) H(IP{}, k, w)); } else W(::new (pa) H(IP{}, const_cast<const Key&>(k), o.w)); return true; }
        return false;
      case O_INPL_R:
        if constexpr (adef && takes_refs<U>::value)
          if (o.flav == 1) { Key k(o.v); KeyRec kr(k, r); Args x(o); W(::new (pa) H(IP{}, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
        if constexpr (adef) { Key k(o.v); KeyRec kr(k, r); W(::new (pa) H(IP{}, std::move(k), o.w)); return true; }
        return false;
      case O_A_INPL_L: { A al = mk(o); Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) { int w = o.w; W(::new (pa) H(std::allocator_arg, al, IP{}, k, w)); } else W(::new (pa) H(std::allocator_arg, al, IP{}, const_cast<const Key&>(k), o.w)); return true; }
      case O_A_INPL_R:
        if constexpr (takes_refs<U>::value)
          if (o.flav == 1) { A al = mk(o); Key k(o.v); KeyRec kr(k, r); Args x(o); W(::new (pa) H(std::allocator_arg, al, IP{}, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
      { A al = mk(o); Key k(o.v); KeyRec kr(k, r); W(::new (pa) H(std::allocator_arg, al, IP{}, std::move(k), o.w)); return true; }
      case O_INPL1:
        if constexpr (adef) { Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) { W(::new (pa) H(IP{}, k)); return true; } W(::new (pa) H(IP{}, std::move(k))); return true; }
        return false;
      case O_A_INPL1: { A al = mk(o); Key k(o.v); KeyRec kr(k, r); if (o.flav == 1) { W(::new (pa) H(std::allocator_arg, al, IP{}, k)); return true; } W(::new (pa) H(std::allocator_arg, al, IP{}, std::move(k))); return true; }
      case O_LIST:
        if constexpr (adef && takes_list_refs<U>::value)
          if (o.flav == 1) { Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); Args x(o); W(::new (pa) H(IP{}, l, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
        if constexpr (adef)
          if (o.flav == 2) { Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(IP{}, l, k)); return true; }
        if constexpr (adef) { Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(IP{}, l, std::move(k))); return true; }
        return false;
      case O_A_LIST:
        if constexpr (takes_list_refs<U>::value)
          if (o.flav == 1) { A al = mk(o); Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); Args x(o); W(::new (pa) H(std::allocator_arg, al, IP{}, l, std::move(k), x.w, x.a, std::move(x.b), const_cast<const Tok&>(x.c))); x.check(); return true; }
        if constexpr (true)
          if (o.flav == 2) { A al = mk(o); Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(std::allocator_arg, al, IP{}, l, k)); return true; }
        { A al = mk(o); Key k(o.w); KeyRec kr(k, r); std::initializer_list<int> l = LIST_ARG(o.v); W(::new (pa) H(std::allocator_arg, al, IP{}, l, std::move(k))); return true; }
    }
    return false;
  }
  template <class U, class... Us> static bool disp(TL<U, Us...>, int ty, const Op& o, void* pa, Res& r) {
    if (ty == 0) return ctor<U>(o, pa, r);
    if constexpr (sizeof...(Us) > 0) return disp(TL<Us...>(), ty - 1, o, pa, r);
    else return false;
  }
  static bool exec(const Op& o, void* pa, void* pb, Res& r) {
    switch (o.kind) {
      case O_DEF:
        if constexpr (defable && adef) { W(::new (pa) H()); return true; }
        return false;
      case O_A_DEF:
        if constexpr (defable) { A al = mk(o); W(::new (pa) H(std::allocator_arg, al)); return true; }
        return false;
      case O_VAL_L: case O_VAL_R: case O_A_VAL_L: case O_A_VAL_R: case O_INPL_L: case O_INPL_R: case O_A_INPL_L:
      case O_A_INPL_R: case O_INPL1: case O_A_INPL1: case O_LIST: case O_A_LIST:
        return disp(typename C::Types(), o.ty % C::Types::n, o, pa, r);
      case O_COPY:
        if (o.flav == 0) W(::new (pa) H(const_cast<const H&>(h(pb))));
        else if (o.flav == 1) W(::new (pa) H(h(pb)));
        else W(::new (pa) H(std::move(const_cast<const H&>(h(pb)))));
        return true;
      case O_A_COPY: {
        A al = mk(o);
        if (o.flav == 0) W(::new (pa) H(std::allocator_arg, al, const_cast<const H&>(h(pb))));
        else if (o.flav == 1) W(::new (pa) H(std::allocator_arg, al, h(pb)));
        else W(::new (pa) H(std::allocator_arg, al, std::move(const_cast<const H&>(h(pb)))));
        return true;
      }
      case O_MOVE: W(::new (pa) H(std::move(h(pb)))); return true;
      case O_A_MOVE: { A al = mk(o); W(::new (pa) H(std::allocator_arg, al, std::move(h(pb)))); return true; }
      case O_DTOR: W(h(pa).~H()); return true;
      case O_CASSIGN: {
        H* res = nullptr;
        if (o.flav == 0) WE(res, std::addressof(h(pa) = const_cast<const H&>(h(pb))));
        else if (o.flav == 1) WE(res, std::addressof(h(pa) = h(pb)));
        else WE(res, std::addressof(h(pa) = std::move(const_cast<const H&>(h(pb)))));
        if (res != pa) violate(V_ACCESS, "assignment does not return the assigned handle");
        return true;
      }
      case O_MASSIGN: {
        H* res = nullptr;
        WE(res, std::addressof(h(pa) = std::move(h(pb))));
        if (res != pa) violate(V_ACCESS, "assignment does not return the assigned handle");
        return true;
      }
      case O_SWAP:
        if (o.flav == 0) { W(h(pa).swap(h(pb))); return true; }
        if (o.flav == 1) { using std::swap; W(swap(h(pa), h(pb))); return true; }
        W(std::swap(h(pa), h(pb)));
        return true;
      case O_ROUNDTRIP: W(H tmp(std::move(h(pa))); h(pa) = std::move(tmp)); return true;
      case O_VAL_ALIAS_L:  // the base subobject as a value, if the base is a complete type
        if constexpr (C::concrete) { A al = mk(o); const T& x = *const_cast<const H&>(h(pb)); W(::new (pa) H(std::allocator_arg, al, x)); return true; }
        return false;
      case O_SET:
        if (o.flav == 0) W((*h(pa)).set(o.v)); else W(h(pa)->set(o.v));
        return true;
      case O_GET: {
        if (o.ty & 0x80) {  // through const access only: may run in several threads at once
          const H& cx = h(pa);
          Win w_;
          if (cx.valueless_after_move()) return true;
          r.addrs[0] = std::addressof(*cx);
          r.addrs[1] = std::addressof(*cx.operator->());
          r.addrs[2] = std::addressof(*cx);
          A al = cx.get_allocator();
          (void)al;
          r.naddrs = 3;
          return true;
        }
        H& x = h(pa);
        const H& cxh = x;
        Win w_;
        r.addrs[0] = std::addressof(*x);
        r.addrs[1] = std::addressof(*cxh);
        r.addrs[2] = std::addressof(*x.operator->());
        r.addrs[3] = std::addressof(*cxh.operator->());
        r.naddrs = 4;
        return true;
      }
    }
    return false;
  }
  static void observe(const void* p, Obs& b) {
    const H& x = *static_cast<const H*>(p);
    b.valueless = x.valueless_after_move();
    A al = x.get_allocator();
    b.arena = arena_of(al); b.tag = tag_of(al);
    if (!b.valueless) {
      const T& t = *x;
      b.addr = std::addressof(t);
      BlkInfo bi;
      if (mem_find(b.addr, bi) && !bi.live) violate(V_UAF, "handle refers to released storage");
      const Core& c = t.c();
      c.use();
      b.obj = t.whole();
      b.type = c.type; b.val = c.val; b.inst = c.inst; b.moved = c.moved;
    }
  }
  template <class... Us> static const u8* codes(TL<Us...>) {
    static const u8 t[] = {Us::TYPE...};
    return t;
  }
  template <class... Us> static void masks(TL<Us...>, CfgInfo& i) {
    bool mc[] = {std::is_same<Us, DCopyOnly>::value...};
    bool nm[] = {std::is_nothrow_move_constructible<Us>::value...};
    for (int k = 0; k < C::Types::n; ++k) {
      if (mc[k]) i.movecopies_mask |= (u8)(1 << codes(TL<Us...>())[k]);
      if (nm[k]) i.nxmove_mask |= (u8)(1 << codes(TL<Us...>())[k]);
    }
  }
  static CfgInfo info(const char* name) {
    CfgInfo i{};
    i.name = name; i.fam = 1; i.aflags = Mk<A>::flags; i.ntypes = C::Types::n;
    i.caps = (defable ? C_DEF : 0) | C_COPY | (adef ? C_ADEF : 0) | C_KEYED | C_LIST |
             (Mk<A>::flags & A_MIN ? 0 : C_TAGS) | ((Mk<A>::flags & (A_MIN | A_FINAL)) == A_MIN || (Mk<A>::flags & A_FANCY) ? 0 : C_CONS);
    i.hsize = sizeof(H); i.halign = alignof(H);
    i.nx.movector = std::is_nothrow_move_constructible<H>::value;
    i.nx.moveassign = std::is_nothrow_move_assignable<H>::value;
    i.nx.swap = noexcept(std::declval<H&>().swap(std::declval<H&>()));
    i.nx.fswap = noexcept(swap(std::declval<H&>(), std::declval<H&>()));
    i.nx.dtor = std::is_nothrow_destructible<H>::value;
    i.nx.amove = std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, H>::value;
    i.nx.valueless = noexcept(std::declval<const H&>().valueless_after_move());
    i.nx.alloc = noexcept(std::declval<const H&>().get_allocator());
    i.nx.deref = noexcept(*std::declval<H&>()) && noexcept(*std::declval<const H&>());
    i.nx.arrow = noexcept(std::declval<H&>().operator->()) && noexcept(std::declval<const H&>().operator->());
    masks(typename C::Types(), i);
    i.typecode = codes(typename C::Types());
    i.exec = exec; i.observe = observe;
    return i;
  }
};

#define CFG_I(ID, NAME, TT, AA, ACMP)                                   \
  struct ID { using T = TT; using A = AA; using H = xyz::indirect<T, A>; static constexpr bool acmp = ACMP; }; \
  static CfgInfo ID##_info = ExecI<ID>::info(NAME);                     \
  static Reg ID##_reg(&ID##_info, nullptr);
#define CFG_P(ID, NAME, TT, AA, CONC, ...)                              \
  struct ID { using T = TT; using A = AA; using H = xyz::polymorphic<T, A>; static constexpr bool concrete = CONC; using Types = TL<__VA_ARGS__>; }; \
  static CfgInfo ID##_info = ExecP<ID>::info(NAME);                     \
  static Reg ID##_reg(&ID##_info, nullptr);
}  // namespace sim
#endif
