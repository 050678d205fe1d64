// Recursive structures: owned objects that hold handles of their own kind.
#ifndef SIM_NESTED_H
#define SIM_NESTED_H
#include "cfg.h"
namespace sim {
// Up to CAP handles stored inline; strong guarantee on copy.
template <class H> struct Kids {
  enum { CAP = 3 };
  alignas(H) unsigned char buf[CAP * sizeof(H)];
  int n = 0;
  H& at(int i) { return reinterpret_cast<H*>(buf)[i]; }
  const H& at(int i) const { return reinterpret_cast<const H*>(buf)[i]; }
  Kids() {}
  Kids(const Kids& o) {
    try {
      while (n < o.n) { ::new (std::addressof(at(n))) H(o.at(n)); ++n; }
    } catch (...) {
      clear();
      throw;
    }
  }
  Kids(Kids&& o) noexcept { take(o); }
  Kids& operator=(const Kids&) = delete;
  void take(Kids& o) noexcept {
    while (n < o.n) { ::new (std::addressof(at(n))) H(std::move(o.at(n))); ++n; }
  }
  void clear() noexcept { while (n > 0) at(--n).~H(); }
  ~Kids() { clear(); }
};

// Where moving owned objects cannot fail, and says so.
template <u32 F> struct NMoves {
  static constexpr bool safe = (F & (A_SOCCC | A_IAE)) != 0 || F == A_POCCA;
  using Tag = typename std::conditional<safe, NoFault, MayFault>::type;
};

template <u32 F> struct INode {
  using M = NMoves<F>;
  using A = SimAlloc<INode, F>;
  using H = xyz::indirect<INode, A>;
  Core core;
  Kids<H> kids;
  explicit INode(Key&& k) : core(BORN(INode, 1), H_VAL, k.v, P_VAL) { k.consumed = true; core.commit(); }
  INode(const INode& o) : core(BORN(INode, 1), o.core), kids(o.kids) { core.commit(); }
  INode(INode&& o) noexcept(M::safe) : core(BORN(INode, 1), std::move(o.core), typename M::Tag()), kids(std::move(o.kids)) { core.commit(); }
  // Safe against o being part of *this.
  INode& operator=(const INode& o) {
    if (this == &o) return *this;
    Kids<H> tmp(o.kids);
    core.cassign(o.core);
    kids.clear();
    kids.take(tmp);
    return *this;
  }
  INode& operator=(INode&& o) noexcept(M::safe) {
    if (this == &o) return *this;
    core.massign(o.core, typename M::Tag());
    Kids<H> tmp(std::move(o.kids));
    kids.clear();
    kids.take(tmp);
    return *this;
  }
  ~INode() {}
  // By value, then part by part: comparisons of handles inside comparisons of handles.
  friend bool operator==(const INode& a, const INode& b) {
    a.core.use(); b.core.use(); point(P_CMP);
    if (a.core.val != b.core.val || a.kids.n != b.kids.n) return false;
    for (int i = 0; i < a.kids.n; ++i) if (!(a.kids.at(i) == b.kids.at(i))) return false;
    return true;
  }
#if SIM_CXX20
  friend std::strong_ordering operator<=>(const INode& a, const INode& b) {
    a.core.use(); b.core.use(); point(P_CMP);
    if (a.core.val != b.core.val) return a.core.val <=> b.core.val;
    for (int i = 0; i < a.kids.n && i < b.kids.n; ++i) {
      std::strong_ordering c = a.kids.at(i) <=> b.kids.at(i);
      if (c != 0) return c;
    }
    return a.kids.n <=> b.kids.n;
  }
#else
  friend bool operator!=(const INode& a, const INode& b) { return !(a == b); }
  friend bool operator<(const INode& a, const INode& b) {
    a.core.use(); b.core.use(); point(P_CMP);
    if (a.core.val != b.core.val) return a.core.val < b.core.val;
    for (int i = 0; i < a.kids.n && i < b.kids.n; ++i) {
      if (a.kids.at(i) < b.kids.at(i)) return true;
      if (b.kids.at(i) < a.kids.at(i)) return false;
    }
    return a.kids.n < b.kids.n;
  }
  friend bool operator>(const INode& a, const INode& b) { return b < a; }
  friend bool operator<=(const INode& a, const INode& b) { return !(b < a); }
  friend bool operator>=(const INode& a, const INode& b) { return !(a < b); }
#endif
};
inline u64 nest_mix(u64 h, u64 x) { return (h ^ x) * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull; }
}  // namespace sim
template <sim::u32 F> struct std::hash<sim::INode<F>> {
  std::size_t operator()(const sim::INode<F>& n) const {
    n.core.use();
    sim::point(sim::P_HASH);
    sim::u64 h = sim::nest_mix(17, (sim::u64)n.core.val);
    for (int i = 0; i < n.kids.n; ++i) h = sim::nest_mix(h, std::hash<typename sim::INode<F>::H>{}(n.kids.at(i)));
    return h;
  }
};
namespace sim {

template <u32 F> struct PNodeB {
  using A = SimAlloc<PNodeB, F>;
  using H = xyz::polymorphic<PNodeB, A>;
  virtual Core& c() = 0;
  virtual Kids<H>& k() = 0;
  virtual const void* whole() const = 0;

 protected:
  PNodeB() = default;
  PNodeB(const PNodeB&) = default;
  ~PNodeB() = default;
};
#define PNODE(N, TY, ...)                                                                                       \
  template <u32 F> struct N : __VA_ARGS__ {                                                                    \
    using H = typename PNodeB<F>::H;                                                                            \
    Core core;                                                                                                  \
    Kids<H> kids;                                                                                               \
    explicit N(Key&& q) : core(BORN(N, TY), H_VAL, q.v, P_VAL) { q.consumed = true; core.commit(); }            \
    N(const N& o) : __VA_ARGS__(o), core(BORN(N, TY), o.core), kids(o.kids) { core.commit(); }                  \
    N(N&& o) noexcept(NMoves<F>::safe) : core(BORN(N, TY), std::move(o.core), typename NMoves<F>::Tag()), kids(std::move(o.kids)) { core.commit(); } \
    Core& c() override { return core; }                                                                         \
    Kids<H>& k() override { return kids; }                                                                      \
    const void* whole() const override { return this; }                                                         \
    ~N() {}                                                                                                     \
  };
PNODE(PNodeX, 1, PNodeB<F>)
template <u32 F> struct SideB : Side, PNodeB<F> {};
PNODE(PNodeY, 2, SideB<F>)

template <u32 F> struct NestI {
  using T = INode<F>;
  using H = typename T::H;
  using A = typename T::A;
  static constexpr int fam = 0;
  static T& node(H& h) { return *h; }
  static Core& core(H& h) { return (*h).core; }
  static Kids<H>& kids(H& h) { return (*h).kids; }
  static const void* obj(H& h) { return std::addressof(*h); }
  static void make(void* p, const A& a, int, Key&& k) { ::new (p) H(std::allocator_arg, a, InPlace{}, std::move(k)); }
};
template <u32 F> struct NestP {
  using T = PNodeB<F>;
  using H = typename T::H;
  using A = typename T::A;
  static constexpr int fam = 1;
  static Core& core(H& h) { return h->c(); }
  static Kids<H>& kids(H& h) { return h->k(); }
  static const void* obj(H& h) { return (*h).whole(); }
  static void make(void* p, const A& a, int ty, Key&& k) {
    if (ty & 1) ::new (p) H(std::allocator_arg, a, InPlaceType<PNodeY<F>>{}, std::move(k));
    else ::new (p) H(std::allocator_arg, a, InPlaceType<PNodeX<F>>{}, std::move(k));
  }
};

template <class N> struct ExecN {
  using H = typename N::H;
  using A = typename N::A;
  static H& h(void* p) { return *static_cast<H*>(p); }
  template <class X, class Y> static void compare(const X& x, const Y& y, int f, bool& r) {
    switch (f) {
      case 0: WE(r, x == y); break;
      case 1: WE(r, x != y); break;
      case 2: WE(r, x < y); break;
      case 3: WE(r, x > y); break;
      case 4: WE(r, x <= y); break;
      default: WE(r, x >= y);
    }
  }
  static bool exec(const Op& o, void* pa, void* pb) {
    switch (o.kind) {
      case N_NEWROOT: { A al = Mk<A>::make(o.arena, o.tag); Key k(o.v); W(N::make(pa, al, o.w & 1, std::move(k))); return true; }
      case N_PUSH: {
        Kids<H>& ks = N::kids(h(pa));
        A al = Mk<A>::make(o.arena, o.tag);
        Key k(o.v);
        W(N::make(ks.buf + ks.n * sizeof(H), al, o.w & 1, std::move(k)); ++ks.n);
        return true;
      }
      case N_POP: { Kids<H>& ks = N::kids(h(pa)); W(ks.at(--ks.n).~H()); return true; }
      case N_ASSIGN_COPY:
        if (o.flav == 0) { W(h(pa) = const_cast<const H&>(h(pb))); return true; }
        if (o.flav == 1) { W(h(pa) = h(pb)); return true; }
        if constexpr (N::fam == 0) { const typename N::T& x = *h(pb); W(h(pa) = x); return true; }
        return false;
      case N_ASSIGN_MOVE:
        if (o.flav != 2) { W(h(pa) = std::move(h(pb))); return true; }
        if constexpr (N::fam == 0) { typename N::T& x = *h(pb); W(h(pa) = std::move(x)); return true; }
        return false;
      case N_CTOR_COPY:
        if (o.flav == 0) { W(::new (pa) H(const_cast<const H&>(h(pb)))); return true; }
        { A al = Mk<A>::make(o.arena, o.tag); W(::new (pa) H(std::allocator_arg, al, const_cast<const H&>(h(pb)))); return true; }
      case N_CTOR_MOVE:
        if (o.flav == 0) { W(::new (pa) H(std::move(h(pb)))); return true; }
        { A al = Mk<A>::make(o.arena, o.tag); W(::new (pa) H(std::allocator_arg, al, std::move(h(pb)))); return true; }
      case N_SWAP:
        if (o.flav == 0) { W(h(pa).swap(h(pb))); return true; }
        { using std::swap; W(swap(h(pa), h(pb))); return true; }
      case N_HOLLOW: W(H tmp(std::move(h(pa)))); return true;
      case N_TEMP_MOVE: W(H tmp(std::move(h(pb))); h(pa) = std::move(tmp)); return true;
      case N_SETVAL: W(N::core(h(pa)).set(o.v)); return true;
      case N_DROP: W(h(pa).~H()); return true;
      case N_CMP:
        if constexpr (N::fam == 0) {
          const H &x = h(pa), &y = h(pb);
          bool r = false;
          if (o.w == 1) { const typename N::T& v = *y; compare(x, v, o.flav, r); }       // with a plain value
          else if (o.w == 2) { const typename N::T& v = *x; compare(v, y, o.flav, r); }
          else compare(x, y, o.flav, r);
          g_nest_res[0] = r;
          return true;
        }
        return false;
      case N_HASH:
        if constexpr (N::fam == 0) {
          const H &x = h(pa), &y = h(pb);
          u64 r = 0, q = 0;
          WE(r, std::hash<H>{}(x));
          WE(q, std::hash<H>{}(y));
          g_nest_res[0] = r; g_nest_res[1] = q;
          return true;
        }
        return false;
    }
    return false;
  }
  static void observe(void* p, Obs& b) {
    H& x = *static_cast<H*>(p);
    b.valueless = x.valueless_after_move();
    A al = x.get_allocator();
    b.arena = arena_of(al); b.tag = tag_of(al);
    if (!b.valueless) {
      b.addr = std::addressof(*x);
      BlkInfo bi;
      if (mem_find(b.addr, bi) && !bi.live) violate(V_UAF, "handle refers to released storage");
      const Core& c = N::core(x);
      c.use();
      b.obj = N::obj(x);
      b.type = c.type; b.val = c.val; b.inst = c.inst; b.moved = c.moved;
    }
  }
  static int nkids(void* p) { return N::kids(h(p)).n; }
  static void* kid(void* p, int i) { return std::addressof(N::kids(h(p)).at(i)); }
  static NestInfo info() {
    NestInfo i{};
    i.hsize = sizeof(H); i.halign = alignof(H);
    i.exec = exec; i.observe = observe; i.nkids = nkids; i.kid = kid;
    return i;
  }
};
#define CFG_N(ID, NAME, KIND, FLAGS)                                                                   \
  static NestInfo ID##_n = ExecN<KIND<(FLAGS)>>::info();                                               \
  static ScenInfo ID##_s = {NAME, 3, KIND<(FLAGS)>::fam, (FLAGS), 0, &ID##_n, nullptr};                \
  static Reg ID##_reg(nullptr, &ID##_s);
}  // namespace sim
#endif
