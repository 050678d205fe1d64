// Allocators owned by the simulator.  Equality is by arena; the tag is an
// identity that is not part of equality (it shows which allocator *object* a
// handle carries), so propagation is observable even between equal allocators.
#ifndef SIM_ALLOC_H
#define SIM_ALLOC_H
#include <memory>
#include <scoped_allocator>
#include <type_traits>
#include <utility>

#include "rt.h"
#if __cplusplus >= 202002L
#include <memory_resource>
#define SIM_PMR 1
#else
#define SIM_PMR 0
#endif

namespace sim {
enum AFlags : u32 {
  A_POCCA = 1, A_POCMA = 2, A_POCS = 4, A_IAE = 8, A_SOCCC = 16, A_NODEF = 32,
  A_MIN = 64, A_FINAL = 128, A_FANCY = 256,
  A_STRICT = 512,  // no more than the standard requires
  A_SCOPED = 1024, // std::scoped_allocator_adaptor around it: owned types may take the allocator over
  A_PMR = 2048     // std::pmr::polymorphic_allocator over simulated memory resources
};
enum : u32 { AR_STATELESS = 9, AR_SOCCC = 4, AR_DEF = 1, TAG_DEF = 0xD0, ALIVE = 0xA11C0DE };

struct NoDef {};

struct AState {
  u32 arena, tag, magic;
  explicit AState(u32 a, u32 t) noexcept : arena(a), tag(t), magic(ALIVE) {}
  AState(const AState& o) noexcept : arena(o.arena), tag(o.tag), magic(o.magic) { chk(); }
  AState& operator=(const AState& o) noexcept {
    o.chk(); chk();
    arena = o.arena; tag = o.tag;
    return *this;
  }
  ~AState() { chk(); magic = 0xDEAD; }
  void chk() const {
    if (magic != ALIVE) violate(V_DEAD_ALLOC, "use of a destroyed or never-constructed allocator");
  }
};

template <bool HasDef> struct DefState : AState {
  using AState::AState;
  DefState() noexcept : AState(AR_DEF, TAG_DEF) {}
};
template <> struct DefState<false> : AState { using AState::AState; };

// Allocators need to be assignable only if they propagate in assignments, and
// may bring their own swap.
template <bool Ok> struct Assignable {};
template <> struct Assignable<false> {
  Assignable() = default;
  Assignable(const Assignable&) = default;
  Assignable& operator=(const Assignable&) = delete;
};

template <class T, u32 F>
class SimAlloc : Assignable<!(F & A_STRICT) || (F & (A_POCCA | A_POCMA)) != 0> {
 public:
  DefState<!(F & A_NODEF)> s;
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & A_POCCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & A_POCMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & A_POCS) != 0>;
  using is_always_equal = std::integral_constant<bool, (F & A_IAE) != 0>;
  template <class U> struct rebind { using other = SimAlloc<U, F>; };

  SimAlloc() = default;
  SimAlloc(u32 arena, u32 tag) noexcept : s((F & A_IAE) ? 0 : arena, tag) {}
  SimAlloc(const SimAlloc&) = default;
  SimAlloc& operator=(const SimAlloc&) = default;
  template <class U> SimAlloc(const SimAlloc<U, F>& o) noexcept : s(o.s.arena, o.s.tag) { o.s.chk(); }

  T* allocate(std::size_t n) {
    s.chk();
    bool late = point(P_ALLOC);
    (void)late;
    return static_cast<T*>(mem_alloc(ar(), s.tag, n * sizeof(T), n, alignof(T), B_TRACKCONS, sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept { s.chk(); mem_free(ar(), p, n, sizeof(T)); }

  template <class U, class... As> void construct(U* p, As&&... as) {
    s.chk();
    frame_push(p, sizeof(U), 1, ar());
    struct Pop { ~Pop() { frame_pop(); } } pop;
    point(P_ACONS);
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
  }
  template <class U> void destroy(U* p) {
    s.chk();
    frame_push(p, sizeof(U), 2, ar());
    struct Pop { ~Pop() { frame_pop(); } } pop;
    p->~U();
  }
  SimAlloc select_on_container_copy_construction() const {
    s.chk();
    if (F & A_SOCCC) return SimAlloc(AR_SOCCC, s.tag + 1);
    return *this;
  }
  u32 ar() const { return (F & A_IAE) ? 0 : s.arena; }
  template <class U> friend bool operator==(const SimAlloc& a, const SimAlloc<U, F>& b) noexcept {
    a.s.chk(); b.s.chk();
    return (F & A_IAE) || a.s.arena == b.s.arena;
  }
  template <class U> friend bool operator!=(const SimAlloc& a, const SimAlloc<U, F>& b) noexcept { return !(a == b); }
  friend void swap(SimAlloc& a, SimAlloc& b) noexcept {
    if (!(F & A_POCS) && (F & A_STRICT)) violate(V_ACCESS, "allocators that do not propagate on swap were exchanged");
    AState t(a.s), u(b.s);
    static_cast<AState&>(a.s) = u;
    static_cast<AState&>(b.s) = t;
  }
};

// Stateless, minimal: nothing but the mandatory members.
template <class T> struct MinAlloc {
  using value_type = T;
  MinAlloc() = default;
  template <class U> MinAlloc(const MinAlloc<U>&) noexcept {}
  T* allocate(std::size_t n) {
    point(P_ALLOC);
    return static_cast<T*>(mem_alloc(AR_STATELESS, 0, n * sizeof(T), n, alignof(T), 0, sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept { mem_free(AR_STATELESS, p, n, sizeof(T)); }
  template <class U> friend bool operator==(const MinAlloc&, const MinAlloc<U>&) noexcept { return true; }
  template <class U> friend bool operator!=(const MinAlloc&, const MinAlloc<U>&) noexcept { return false; }
};
// Empty but final (no empty-base optimisation possible), and it builds and
// destroys objects itself: having no state says nothing about its hooks.
template <class T> struct FinalAlloc final {
  using value_type = T;
  FinalAlloc() = default;
  template <class U> FinalAlloc(const FinalAlloc<U>&) noexcept {}
  T* allocate(std::size_t n) {
    point(P_ALLOC);
    return static_cast<T*>(mem_alloc(AR_STATELESS, 0, n * sizeof(T), n, alignof(T), B_TRACKCONS, sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept { mem_free(AR_STATELESS, p, n, sizeof(T)); }
  template <class U, class... As> void construct(U* p, As&&... as) {
    frame_push(p, sizeof(U), 1, AR_STATELESS);
    struct Pop { ~Pop() { frame_pop(); } } pop;
    point(P_ACONS);
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
  }
  template <class U> void destroy(U* p) {
    frame_push(p, sizeof(U), 2, AR_STATELESS);
    struct Pop { ~Pop() { frame_pop(); } } pop;
    p->~U();
  }
  template <class U> friend bool operator==(const FinalAlloc&, const FinalAlloc<U>&) noexcept { return true; }
  template <class U> friend bool operator!=(const FinalAlloc&, const FinalAlloc<U>&) noexcept { return false; }
};

#if __cplusplus >= 202002L
// Fancy pointer: a class type, offset-free but not convertible to T*.
template <class T> struct Fancy {
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using difference_type = std::ptrdiff_t;
  using reference = std::add_lvalue_reference_t<T>;
  using pointer = T*;
  using iterator_category = std::random_access_iterator_tag;
  template <class U> using rebind = Fancy<U>;
  T* p = nullptr;
  Fancy() = default;
  Fancy(std::nullptr_t) {}
  explicit Fancy(T* q) : p(q) {}
  template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
  Fancy(const Fancy<U>& o) : p(o.p) {}
  T& operator*() const { return *p; }
  T* operator->() const { return p; }
  explicit operator bool() const { return p != nullptr; }
  template <class R = T, class = std::enable_if_t<!std::is_void_v<R>>>
  static Fancy pointer_to(R& r) { return Fancy(std::addressof(r)); }
  friend bool operator==(const Fancy& a, const Fancy& b) { return a.p == b.p; }
  friend bool operator==(const Fancy& a, std::nullptr_t) { return a.p == nullptr; }
};
template <class T, u32 F> class FancyAlloc {
 public:
  DefState<true> s;
  using value_type = T;
  using pointer = Fancy<T>;
  using const_pointer = Fancy<const T>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & A_POCCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & A_POCMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & A_POCS) != 0>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = FancyAlloc<U, F>; };
  FancyAlloc() = default;
  FancyAlloc(u32 a, u32 t) noexcept : s(a, t) {}
  template <class U> FancyAlloc(const FancyAlloc<U, F>& o) noexcept : s(o.s.arena, o.s.tag) {}
  pointer allocate(std::size_t n) {
    s.chk();
    point(P_ALLOC);
    return pointer(static_cast<T*>(mem_alloc(s.arena, s.tag, n * sizeof(T), n, alignof(T), 0, sizeof(T))));
  }
  void deallocate(pointer p, std::size_t n) noexcept { s.chk(); mem_free(s.arena, p.p, n, sizeof(T)); }
  template <class U> friend bool operator==(const FancyAlloc& a, const FancyAlloc<U, F>& b) noexcept {
    a.s.chk(); b.s.chk();
    return a.s.arena == b.s.arena;
  }
};
#endif

// Reading an allocator's identity.
template <class T, u32 F> u32 arena_of(const SimAlloc<T, F>& a) { a.s.chk(); return a.ar(); }
template <class T, u32 F> u32 tag_of(const SimAlloc<T, F>& a) { a.s.chk(); return a.s.tag; }
template <class T> u32 arena_of(const MinAlloc<T>&) { return AR_STATELESS; }
template <class T> u32 tag_of(const MinAlloc<T>&) { return 0; }
template <class T> u32 arena_of(const FinalAlloc<T>&) { return AR_STATELESS; }
template <class T> u32 tag_of(const FinalAlloc<T>&) { return 0; }
#if __cplusplus >= 202002L
template <class T, u32 F> u32 arena_of(const FancyAlloc<T, F>& a) { a.s.chk(); return a.s.arena; }
template <class T, u32 F> u32 tag_of(const FancyAlloc<T, F>& a) { a.s.chk(); return a.s.tag; }
#endif

#if SIM_PMR
// One resource per arena and tag; those of one arena are equal.
enum : u32 { PMR_ARENAS = 8, PMR_TAGS = 9, TAG_PMR_DEF = 8 };
struct SimResource final : std::pmr::memory_resource {
  u32 arena = 0, tag = 0;
  void* do_allocate(std::size_t bytes, std::size_t align) override {
    point(P_ALLOC);
    return mem_alloc(arena, tag, bytes, 1, align, 0, bytes);
  }
  void do_deallocate(void* p, std::size_t bytes, std::size_t) override { mem_free(arena, p, 1, bytes); }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
    auto r = dynamic_cast<const SimResource*>(&o);
    return r && r->arena == arena;
  }
};
inline SimResource* sim_resource(u32 arena, u32 tag) {
  static SimResource all[PMR_ARENAS][PMR_TAGS];
  static bool ready = false;
  if (!ready) {
    for (u32 i = 0; i < PMR_ARENAS; ++i) for (u32 j = 0; j < PMR_TAGS; ++j) { all[i][j].arena = i; all[i][j].tag = j; }
    std::pmr::set_default_resource(&all[AR_SOCCC][TAG_PMR_DEF]);
    ready = true;
  }
  return &all[arena % PMR_ARENAS][tag % PMR_TAGS];
}
template <class T> const SimResource& res_of(const std::pmr::polymorphic_allocator<T>& a) { return static_cast<const SimResource&>(*a.resource()); }
template <class T> u32 arena_of(const std::pmr::polymorphic_allocator<T>& a) { return res_of(a).arena; }
template <class T> u32 tag_of(const std::pmr::polymorphic_allocator<T>& a) { return res_of(a).tag; }
#endif

// Uniform construction.
template <class A> struct Mk;
template <class A> struct Mk<std::scoped_allocator_adaptor<A>> {
  static constexpr u32 flags = Mk<A>::flags | A_SCOPED;
  static std::scoped_allocator_adaptor<A> make(u32 a, u32 t) { return std::scoped_allocator_adaptor<A>(Mk<A>::make(a, t)); }
};
#if SIM_PMR
template <class T> struct Mk<std::pmr::polymorphic_allocator<T>> {
  static constexpr u32 flags = A_PMR | A_SOCCC;
  static std::pmr::polymorphic_allocator<T> make(u32 a, u32 t) { return std::pmr::polymorphic_allocator<T>(sim_resource(a, t)); }
};
#endif
template <class T, u32 F> struct Mk<SimAlloc<T, F>> {
  static constexpr u32 flags = F;
  static SimAlloc<T, F> make(u32 a, u32 t) { return SimAlloc<T, F>(a, t); }
};
template <class T> struct Mk<MinAlloc<T>> {
  static constexpr u32 flags = A_IAE | A_MIN;
  static MinAlloc<T> make(u32, u32) { return MinAlloc<T>(); }
};
template <class T> struct Mk<FinalAlloc<T>> {
  static constexpr u32 flags = A_IAE | A_MIN | A_FINAL;
  static FinalAlloc<T> make(u32, u32) { return FinalAlloc<T>(); }
};
#if __cplusplus >= 202002L
template <class T, u32 F> struct Mk<FancyAlloc<T, F>> {
  static constexpr u32 flags = F | A_FANCY;
  static FancyAlloc<T, F> make(u32 a, u32 t) { return FancyAlloc<T, F>(a, t); }
};
#endif
}  // namespace sim
#endif
