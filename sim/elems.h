// Owned types.  Every special member reports to the runtime and is a fault
// point unless declared non-throwing.
#ifndef SIM_ELEMS_H
#define SIM_ELEMS_H
#include <functional>
#include <initializer_list>
#include <memory>
#if __cplusplus >= 202002L
#include <compare>
#endif

#include "rt.h"

namespace sim {
enum : i64 { DEFV = 7, MOVEDV = -4242, FOREIGN = 99999 };

// Constructor argument whose copies are counted: forwarding must not copy it.
struct Key {
  i64 v;
  bool consumed;
  explicit Key(i64 x) : v(x), consumed(false) {}
  Key(const Key& o) : v(o.v), consumed(o.consumed) { note_keycopy(); }
  Key(Key&& o) : v(o.v), consumed(o.consumed) { o.consumed = true; note_keycopy(); }
  Key& operator=(const Key&) = delete;
};
// Further arguments: each has to arrive as itself, in the category it was given.
struct Tok {
  const Tok* self;
  mutable int seen = 0;
  mutable bool bad = false;
  Tok() : self(this) {}
  Tok(const Tok& o) : self(o.self) {}
  Tok& operator=(const Tok&) = delete;
  void here() const { ++self->seen; if (self != this) self->bad = true; }
  bool ok() const { return seen == 1 && !bad; }
};
inline i64 take(const Key& k) { return k.v; }
inline i64 take(Key&& k) { k.consumed = true; return k.v; }
inline i64 list_val(std::initializer_list<int> l) {
  i64 r = 17;
  for (int x : l) r = r * 31 + x;
  return r;
}

// Not const access to a source that is copied: only the copies property cares.
inline void nonconst_copy() {
  if (g_strict_copy) violate(V_ACCESS, "an owned object was copied through non-const access");
}
struct Born { const void* obj; u32 size; u8 type; };
struct NoFault {};
struct MayFault {};

class Core {
 public:
  i64 val;
  u32 inst;
  u8 type;
  bool moved;
  bool late;
  const Core* self;

  Core(Born b, How h, i64 v, Point p) : val(v), type(b.type), moved(false), late(point(p)), self(this) {
    inst = obj_born(this, b.obj, b.size, b.type, h, 0);
  }
  Core(Born b, const Core& o) : Core(b, o, (o.use(), point(P_COPY))) {}  // copy
  Core(Born b, Core&& o) : Core(b, o, (o.use(), point(P_MOVE)), 0) {}    // throwing move
  Core(Born b, Core&& o, NoFault) noexcept : Core(b, o, (o.use(), note(P_MOVE), false), 0) {}
  Core(Born b, Core&& o, MayFault) : Core(b, std::move(o)) {}
  Core(const Core&) = delete;
  Core& operator=(const Core&) = delete;
  void commit() {
    if (late) { late = false; raise(); }
    obj_commit(this);
  }
  ~Core() { obj_dead(this, self); }
  void use() const { obj_use(this, self); }
  void cassign(const Core& o) {
    use(); o.use();
    bool l = point(P_CASSIGN);
    val = o.val; moved = o.moved;
    if (l) raise();
  }
  void massign(Core& o) {
    use(); o.use();
    point(P_MASSIGN);
    steal(o);
  }
  void massign(Core& o, MayFault) { massign(o); }
  void massign(Core& o, NoFault) noexcept {
    use(); o.use();
    note(P_MASSIGN);
    steal(o);
  }
  void vassign(i64 v) {
    use();
    bool l = point(P_VASSIGN);
    val = v; moved = false;
    if (l) raise();
  }
  void set(i64 v) { use(); val = v; moved = false; }
  i64 get() const { use(); return val; }

 private:
  Core(Born b, const Core& o, bool l) : val(o.val), type(b.type), moved(o.moved), late(l), self(this) {
    inst = obj_born(this, b.obj, b.size, b.type, H_COPY, o.inst);
  }
  Core(Born b, Core& o, bool l, int) : val(o.val), type(b.type), moved(o.moved), late(l), self(this) {
    inst = obj_born(this, b.obj, b.size, b.type, H_MOVE, o.inst);
    o.val = MOVEDV; o.moved = true;
  }
  void steal(Core& o) {
    val = o.val; moved = o.moved;
    if (this != &o) { o.val = MOVEDV; o.moved = true; }
  }
};

// Deliberately includes results that look like sentinels.
inline u64 hash_val(i64 v) {
  switch (((v % 11) + 11) % 11) {
    case 0: return 0;
    case 1: return 1;
    case 2: return ~0ull - 1;
    case 3: return 0x5a0000000000ull;
    default: return (u64)v * 0x9e3779b97f4a7c15ull;
  }
}

#define BORN(N, TY) (Born{this, sizeof(N), TY})
#define EL_COMMON(N, TY)                                                               \
  Core core;                                                                           \
  static constexpr u8 TYPE = TY;                                                       \
  N(const Key& k) : core(BORN(N, TY), H_VAL, take(k), P_VAL) { core.commit(); } \
  N(Key&& k) : core(BORN(N, TY), H_VAL, take2(k), P_VAL) { k.consumed = true; core.commit(); } \
  N(const Key& k, int w) : core(BORN(N, TY), H_VAL, take(k) + 3 * (i64)w, P_VAL) { core.commit(); } \
  N(Key&& k, int w) : core(BORN(N, TY), H_VAL, take2(k) + 3 * (i64)w, P_VAL) { k.consumed = true; core.commit(); } \
  N(std::initializer_list<int> l, const Key& k) : core(BORN(N, TY), H_LIST, list_val(l) + take(k), P_LIST) { core.commit(); } \
  N(std::initializer_list<int> l, Key&& k, int& w, Tok& a, Tok&& b, const Tok& c) : core(BORN(N, TY), H_LIST, list_val(l) + take2(k), P_LIST) { k.consumed = true; w += 1000; a.here(); b.here(); c.here(); core.commit(); } \
  N(std::initializer_list<int> l, Key&& k) : core(BORN(N, TY), H_LIST, list_val(l) + take2(k), P_LIST) { k.consumed = true; core.commit(); } \
  N(Key&& k, int& w, Tok& a, Tok&& b, const Tok& c) : core(BORN(N, TY), H_VAL, take2(k) + 3 * (i64)w, P_VAL) { k.consumed = true; w += 1000; a.here(); b.here(); c.here(); core.commit(); } \
  static i64 take2(const Key& k) { return k.v; }                                       \
  ~N() {}
#define EL_DEF(N, TY) N() : core(BORN(N, TY), H_DEF, DEFV, P_DEF) { core.commit(); }
#define EL_COPY(N, TY) N(const N& o) : core(BORN(N, TY), o.core) { core.commit(); }
// Chosen only when an object is copied through access that is not const.
#define EL_NCCOPY(N, TY) enum { NonConstCopy }; N(N& o) : core(BORN(N, TY), o.core) { nonconst_copy(); core.commit(); }
#define EL_MOVE(N, TY) N(N&& o) : core(BORN(N, TY), std::move(o.core)) { core.commit(); }
#define EL_MOVE_NX(N, TY) N(N&& o) noexcept : core(BORN(N, TY), std::move(o.core), NoFault()) { core.commit(); }
#define EL_CASSIGN(N) N& operator=(const N& o) { core.cassign(o.core); return *this; }
#define EL_MASSIGN(N) N& operator=(N&& o) { core.massign(o.core); return *this; }
#define EL_MASSIGN_NX(N) N& operator=(N&& o) noexcept { core.massign(o.core, NoFault()); return *this; }
#define EL_KASSIGN(N)                                                       \
  N& operator=(const Key& k) { core.vassign(k.v); return *this; }           \
  N& operator=(Key&& k) { core.vassign(k.v); k.consumed = true; return *this; }
#define CMPV(a, b, OP) (a.core.use(), b.core.use(), point(P_CMP), a.core.val OP b.core.val)
#define EL_EQ(N)                                                                 \
  friend bool operator==(const N& a, const N& b) { return CMPV(a, b, ==); }
#if __cplusplus >= 202002L
#define EL_ORD(N) \
  friend std::strong_ordering operator<=>(const N& a, const N& b) { return CMPV(a, b, <=>); }
#define EL_XCMP(N, M)                                                            \
  friend bool operator==(const N& a, const M& b) { return CMPV(a, b, ==); }      \
  friend std::strong_ordering operator<=>(const N& a, const M& b) { return CMPV(a, b, <=>); }
#else
#define EL_ORD(N)                                                                \
  friend bool operator!=(const N& a, const N& b) { return CMPV(a, b, !=); }      \
  friend bool operator<(const N& a, const N& b) { return CMPV(a, b, <); }        \
  friend bool operator>(const N& a, const N& b) { return CMPV(a, b, >); }        \
  friend bool operator<=(const N& a, const N& b) { return CMPV(a, b, <=); }      \
  friend bool operator>=(const N& a, const N& b) { return CMPV(a, b, >=); }
#define EL_X1(N, M, OP) friend bool operator OP(const N& a, const M& b) { return CMPV(a, b, OP); } \
                        friend bool operator OP(const M& a, const N& b) { return CMPV(a, b, OP); }
#define EL_XCMP(N, M) EL_X1(N, M, ==) EL_X1(N, M, !=) EL_X1(N, M, <) EL_X1(N, M, >) EL_X1(N, M, <=) EL_X1(N, M, >=)
#endif

// Comparison partner of a different type.
struct Other {
  EL_COMMON(Other, 40) EL_DEF(Other, 40) EL_COPY(Other, 40) EL_MOVE(Other, 40) EL_CASSIGN(Other) EL_MASSIGN(Other)
};

struct Basic {
  EL_COMMON(Basic, 1) EL_DEF(Basic, 1) EL_COPY(Basic, 1) EL_MOVE(Basic, 1) EL_CASSIGN(Basic) EL_MASSIGN(Basic)
  EL_KASSIGN(Basic) EL_EQ(Basic) EL_ORD(Basic) EL_XCMP(Basic, Other)
};
struct NxMove {
  EL_COMMON(NxMove, 1) EL_DEF(NxMove, 1) EL_COPY(NxMove, 1) EL_NCCOPY(NxMove, 1) EL_MOVE_NX(NxMove, 1) EL_CASSIGN(NxMove)
  EL_MASSIGN_NX(NxMove) EL_KASSIGN(NxMove) EL_EQ(NxMove) EL_ORD(NxMove) EL_XCMP(NxMove, Other)
};
struct alignas(64) Big {
  EL_COMMON(Big, 1) EL_DEF(Big, 1) EL_COPY(Big, 1) EL_MOVE(Big, 1) EL_CASSIGN(Big) EL_MASSIGN(Big) EL_KASSIGN(Big)
  EL_EQ(Big) EL_ORD(Big) EL_XCMP(Big, Other)
  unsigned char pad[150] = {1, 2, 3};
};
struct alignas(1024) Huge {
  EL_COMMON(Huge, 1) EL_DEF(Huge, 1) EL_COPY(Huge, 1) EL_MOVE(Huge, 1) EL_CASSIGN(Huge) EL_MASSIGN(Huge) EL_KASSIGN(Huge)
  EL_EQ(Huge) EL_ORD(Huge)
  unsigned char pad[9000];
};
struct Evil { void f() const { violate(V_ACCESS, "an overloaded operator of the owned type was used"); } };
#define EL_EVIL                                                                  \
  Evil operator&() const { Evil e; e.f(); return e; }                            \
  template <class X> friend Evil operator,(const X&, const Hostile&) { Evil e; e.f(); return e; } \
  template <class X> friend Evil operator,(const Hostile&, const X&) { Evil e; e.f(); return e; }
struct Hostile {
  EL_COMMON(Hostile, 1) EL_DEF(Hostile, 1) EL_COPY(Hostile, 1) EL_MOVE(Hostile, 1) EL_CASSIGN(Hostile)
  EL_MASSIGN(Hostile) EL_KASSIGN(Hostile) EL_EQ(Hostile) EL_ORD(Hostile)
  EL_EVIL
  static void* operator new(std::size_t) = delete;
  static void operator delete(void*) = delete;
};
struct MoveOnly {
  EL_COMMON(MoveOnly, 1) EL_DEF(MoveOnly, 1) MoveOnly(const MoveOnly&) = delete; EL_MOVE(MoveOnly, 1)
  MoveOnly& operator=(const MoveOnly&) = delete;
  EL_MASSIGN(MoveOnly) EL_KASSIGN(MoveOnly) EL_EQ(MoveOnly) EL_ORD(MoveOnly)
};
struct CopyOnly {  // no move operations: moving copies
  EL_COMMON(CopyOnly, 1) EL_DEF(CopyOnly, 1) EL_COPY(CopyOnly, 1) EL_CASSIGN(CopyOnly) EL_KASSIGN(CopyOnly)
  EL_EQ(CopyOnly) EL_ORD(CopyOnly)
};
struct NoDefault {
  EL_COMMON(NoDefault, 1) NoDefault() = delete; EL_COPY(NoDefault, 1) EL_MOVE(NoDefault, 1) EL_CASSIGN(NoDefault)
  EL_MASSIGN(NoDefault) EL_KASSIGN(NoDefault) EL_EQ(NoDefault) EL_ORD(NoDefault)
};
struct LessOnly {  // orders by decade; no other comparison
  EL_COMMON(LessOnly, 1) EL_DEF(LessOnly, 1) EL_COPY(LessOnly, 1) EL_MOVE(LessOnly, 1) EL_CASSIGN(LessOnly)
  EL_MASSIGN(LessOnly) EL_KASSIGN(LessOnly)
  static i64 dec(i64 v) { return v >= 0 ? v / 10 : -((9 - v) / 10); }
  friend bool operator<(const LessOnly& a, const LessOnly& b) {
    a.core.use(); b.core.use(); point(P_CMP);
    return dec(a.core.val) < dec(b.core.val);
  }
};
// Equality is finer than the order (weakly ordered by decade); == and != give
// something that merely converts to bool.
struct Truth {
  bool v;
  operator bool() const { return v; }
};
struct Weak {
  EL_COMMON(Weak, 1) EL_DEF(Weak, 1) EL_COPY(Weak, 1) EL_MOVE(Weak, 1) EL_CASSIGN(Weak) EL_MASSIGN(Weak) EL_KASSIGN(Weak)
#define WCMP(OP) (a.core.use(), b.core.use(), point(P_CMP), LessOnly::dec(a.core.val) OP LessOnly::dec(b.core.val))
  friend Truth operator==(const Weak& a, const Weak& b) { return Truth{CMPV(a, b, ==)}; }
  friend Truth operator!=(const Weak& a, const Weak& b) { return Truth{CMPV(a, b, !=)}; }
#if __cplusplus >= 202002L
  friend std::weak_ordering operator<=>(const Weak& a, const Weak& b) { return WCMP(<=>); }
#else
  friend bool operator<(const Weak& a, const Weak& b) { return WCMP(<); }
  friend bool operator>(const Weak& a, const Weak& b) { return WCMP(>); }
  friend bool operator<=(const Weak& a, const Weak& b) { return WCMP(<=); }
  friend bool operator>=(const Weak& a, const Weak& b) { return WCMP(>=); }
#endif
};
// val divisible by 5 plays the role of NaN: unordered and unequal to everything.
struct Partial {
  EL_COMMON(Partial, 1) EL_DEF(Partial, 1) EL_COPY(Partial, 1) EL_MOVE(Partial, 1) EL_CASSIGN(Partial)
  EL_MASSIGN(Partial) EL_KASSIGN(Partial)
  static bool nan(i64 v) { return v % 5 == 0; }
#define PCMP(OP) (a.core.use(), b.core.use(), point(P_CMP), !nan(a.core.val) && !nan(b.core.val) && a.core.val OP b.core.val)
  friend bool operator==(const Partial& a, const Partial& b) { return PCMP(==); }
#if __cplusplus >= 202002L
  friend std::partial_ordering operator<=>(const Partial& a, const Partial& b) {
    a.core.use(); b.core.use(); point(P_CMP);
    if (nan(a.core.val) || nan(b.core.val)) return std::partial_ordering::unordered;
    return a.core.val <=> b.core.val;
  }
#else
  friend bool operator!=(const Partial& a, const Partial& b) { return !PCMP(==); }
  friend bool operator<(const Partial& a, const Partial& b) { return PCMP(<); }
  friend bool operator>(const Partial& a, const Partial& b) { return PCMP(>); }
  friend bool operator<=(const Partial& a, const Partial& b) { return PCMP(<=); }
  friend bool operator>=(const Partial& a, const Partial& b) { return PCMP(>=); }
#endif
};
// Accepts and is assignable from absolutely anything.
struct Greedy {
  Core core;
  static constexpr u8 TYPE = 1;
  template <class U> static i64 val_of(const U&, long) { return FOREIGN; }
  static i64 val_of(const Key& k, int) { return k.v; }
  template <class U, typename std::enable_if<!std::is_same<typename std::decay<U>::type, Greedy>::value, int>::type = 0>
  Greedy(U&& u) : core(BORN(Greedy, 1), H_VAL, val_of(u, 0), P_VAL) { core.commit(); }
  Greedy() : core(BORN(Greedy, 1), H_DEF, DEFV, P_DEF) { core.commit(); }
  EL_COPY(Greedy, 1) EL_NCCOPY(Greedy, 1) EL_MOVE(Greedy, 1) EL_CASSIGN(Greedy) EL_MASSIGN(Greedy)
  template <class U, typename std::enable_if<!std::is_same<typename std::decay<U>::type, Greedy>::value, int>::type = 0>
  Greedy& operator=(U&& u) { core.vassign(val_of(u, 0)); return *this; }
  ~Greedy() {}
};
struct VoidAssign {  // assignment returns void; no move assignment
  EL_COMMON(VoidAssign, 1) EL_DEF(VoidAssign, 1) EL_COPY(VoidAssign, 1) EL_MOVE(VoidAssign, 1)
  void operator=(const VoidAssign& o) { core.cassign(o.core); }
  EL_EQ(VoidAssign) EL_ORD(VoidAssign)
};

template <class T> struct HashOf {
  std::size_t operator()(const T& t) const {
    t.core.use();
    point(P_HASH);
    return hash_val(t.core.val);
  }
};

// ------------------------------------------------------------ polymorphic --
struct Base {  // abstract; neither public nor virtual destructor
  virtual void set(i64) = 0;
  virtual const Core& c() const = 0;
  virtual const void* whole() const = 0;
 protected:
  Base() = default;
  Base(const Base&) = default;
  Base& operator=(const Base&) = default;
  ~Base() = default;
};
#define DV_COMMON(N, TY)                                                                           \
  Core core;                                                                                       \
  static constexpr u8 TYPE = TY;                                                                   \
  static i64 take2(const Key& k) { return k.v; }                                                   \
  explicit N(const Key& k) : core(BORN(N, TY), H_VAL, take(k), P_VAL) { core.commit(); }           \
  N(Key&& k) : core(BORN(N, TY), H_VAL, take2(k), P_VAL) { k.consumed = true; core.commit(); } \
  N(const Key& k, int w) : core(BORN(N, TY), H_VAL, take(k) + 3 * (i64)w, P_VAL) { core.commit(); } \
  N(Key&& k, int w) : core(BORN(N, TY), H_VAL, take2(k) + 3 * (i64)w, P_VAL) { k.consumed = true; core.commit(); } \
  N(std::initializer_list<int> l, const Key& k) : core(BORN(N, TY), H_LIST, list_val(l) + take(k), P_LIST) { core.commit(); } \
  N(std::initializer_list<int> l, Key&& k, int& w, Tok& a, Tok&& b, const Tok& c) : core(BORN(N, TY), H_LIST, list_val(l) + take2(k), P_LIST) { k.consumed = true; w += 1000; a.here(); b.here(); c.here(); core.commit(); } \
  N(std::initializer_list<int> l, Key&& k) : core(BORN(N, TY), H_LIST, list_val(l) + take2(k), P_LIST) { k.consumed = true; core.commit(); } \
  N(Key&& k, int& w, Tok& a, Tok&& b, const Tok& c) : core(BORN(N, TY), H_VAL, take2(k) + 3 * (i64)w, P_VAL) { k.consumed = true; w += 1000; a.here(); b.here(); c.here(); core.commit(); } \
  N() : core(BORN(N, TY), H_DEF, DEFV, P_DEF) { core.commit(); }
#define DV_VIRT                                            \
  void set(i64 v) override { core.set(v); }                \
  const Core& c() const override { return core; }          \
  const void* whole() const override { return static_cast<const void*>(core_whole()); }

struct DSmall : Base {
  DV_COMMON(DSmall, 1)
  DSmall(const DSmall& o) : Base(), core(BORN(DSmall, 1), o.core) { core.commit(); }
  DSmall(DSmall&& o) : Base(), core(BORN(DSmall, 1), std::move(o.core)) { core.commit(); }
  DSmall& operator=(const DSmall&) = delete;
  ~DSmall() {}
  void set(i64 v) override { core.set(v); }
  const Core& c() const override { return core; }
  const void* whole() const override { return this; }

 protected:
  DSmall(Born b, How h, i64 v, Point p) : core(b, h, v, p) {}
  DSmall(Born b, const Core& o) : core(b, o) {}
  DSmall(Born b, Core&& o) : core(b, std::move(o)) {}
};
struct alignas(64) DBig : Base {
  unsigned char front[100] = {9};
  DV_COMMON(DBig, 2)
  enum { NonConstCopy };
  DBig(DBig& o) : Base(), core(BORN(DBig, 2), o.core) { nonconst_copy(); core.commit(); }
  DBig(const DBig& o) : Base(), core(BORN(DBig, 2), o.core) { core.commit(); }
  DBig(DBig&& o) : Base(), core(BORN(DBig, 2), std::move(o.core)) { core.commit(); }
  ~DBig() {}
  void set(i64 v) override { core.set(v); }
  const Core& c() const override { return core; }
  const void* whole() const override { return this; }
};
struct alignas(512) DHuge : Base {
  unsigned char front[5000];
  DV_COMMON(DHuge, 8)
  DHuge(const DHuge& o) : Base(), core(BORN(DHuge, 8), o.core) { core.commit(); }
  DHuge(DHuge&& o) : Base(), core(BORN(DHuge, 8), std::move(o.core)) { core.commit(); }
  ~DHuge() {}
  void set(i64 v) override { core.set(v); }
  const Core& c() const override { return core; }
  const void* whole() const override { return this; }
};
struct Side {
  i64 side[5] = {11, 22, 33, 44, 55};
  virtual i64 s() const { return side[2]; }
};
struct DMulti : Side, Base {  // Base at a non-zero offset
  DV_COMMON(DMulti, 3)
  DMulti(const DMulti& o) : Side(), Base(), core(BORN(DMulti, 3), o.core) { core.commit(); }
  DMulti(DMulti&& o) : Side(), Base(), core(BORN(DMulti, 3), std::move(o.core)) { core.commit(); }
  ~DMulti() {}
  void set(i64 v) override { core.set(v); }
  const Core& c() const override { return core; }
  const void* whole() const override { return static_cast<const void*>(this); }
};
struct DVirt : Side, virtual Base {  // virtual base
  DV_COMMON(DVirt, 4)
  enum { NonConstCopy };
  DVirt(DVirt& o) : Base(), Side(), core(BORN(DVirt, 4), o.core) { nonconst_copy(); core.commit(); }
  DVirt(const DVirt& o) : Base(), Side(), core(BORN(DVirt, 4), o.core) { core.commit(); }
  DVirt(DVirt&& o) : Base(), Side(), core(BORN(DVirt, 4), std::move(o.core)) { core.commit(); }
  ~DVirt() {}
  void set(i64 v) override { core.set(v); }
  const Core& c() const override { return core; }
  const void* whole() const override { return static_cast<const void*>(this); }
};
struct DTwo : DSmall {  // derived from another usable derived type
  static constexpr u8 TYPE = 5;
  explicit DTwo(const Key& k) : DSmall(BORN(DTwo, 5), H_VAL, take(k), P_VAL) { core.commit(); }
  explicit DTwo(Key&& k) : DSmall(BORN(DTwo, 5), H_VAL, take2(k), P_VAL) { k.consumed = true; core.commit(); }
  DTwo(const Key& k, int w) : DSmall(BORN(DTwo, 5), H_VAL, take(k) + 3 * (i64)w, P_VAL) { core.commit(); }
  DTwo(Key&& k, int w) : DSmall(BORN(DTwo, 5), H_VAL, take2(k) + 3 * (i64)w, P_VAL) { k.consumed = true; core.commit(); }
  DTwo(std::initializer_list<int> l, const Key& k) : DSmall(BORN(DTwo, 5), H_LIST, list_val(l) + take(k), P_LIST) { core.commit(); }
  DTwo(std::initializer_list<int> l, Key&& k) : DSmall(BORN(DTwo, 5), H_LIST, list_val(l) + take2(k), P_LIST) { k.consumed = true; core.commit(); }
  DTwo() : DSmall(BORN(DTwo, 5), H_DEF, DEFV, P_DEF) { core.commit(); }
  DTwo(const DTwo& o) : DSmall(BORN(DTwo, 5), o.core) { core.commit(); }
  DTwo(DTwo&& o) : DSmall(BORN(DTwo, 5), std::move(o.core)) { core.commit(); }
  ~DTwo() {}
  const void* whole() const override { return this; }
  i64 extra[3] = {1, 2, 3};
};
struct DHost final : Base {  // evil operator&, final
  DV_COMMON(DHost, 6)
  DHost(const DHost& o) : Base(), core(BORN(DHost, 6), o.core) { core.commit(); }
  DHost(DHost&& o) noexcept : Base(), core(BORN(DHost, 6), std::move(o.core), NoFault()) { core.commit(); }
  ~DHost() {}
  void set(i64 v) override { core.set(v); }
  const Core& c() const override { return core; }
  const void* whole() const override { return this; }
  Evil operator&() const { Evil e; e.f(); return e; }
  static void* operator new(std::size_t) = delete;
  static void operator delete(void*) = delete;
};
struct DCopyOnly : Base {  // copyable, not movable
  DV_COMMON(DCopyOnly, 7)
  enum { NonConstCopy };
  DCopyOnly(DCopyOnly& o) : Base(), core(BORN(DCopyOnly, 7), o.core) { nonconst_copy(); core.commit(); }
  DCopyOnly(const DCopyOnly& o) : Base(), core(BORN(DCopyOnly, 7), o.core) { core.commit(); }
  ~DCopyOnly() {}
  void set(i64 v) override { core.set(v); }
  const Core& c() const override { return core; }
  const void* whole() const override { return this; }
};

// A concrete base that may itself be owned, and a type derived from it.
struct CBase {
  DV_COMMON(CBase, 1)
  CBase(const CBase& o) : core(BORN(CBase, 1), o.core) { core.commit(); }
  CBase(CBase&& o) : core(BORN(CBase, 1), std::move(o.core)) { core.commit(); }
  CBase& operator=(const CBase&) = delete;
  virtual void set(i64 v) { core.set(v); }
  virtual const Core& c() const { return core; }
  virtual const void* whole() const { return this; }
  virtual u8 kind() const { return 1; }
  virtual ~CBase() {}

 protected:
  CBase(Born b, How h, i64 v, Point p) : core(b, h, v, p) {}
  CBase(Born b, const Core& o) : core(b, o) {}
  CBase(Born b, Core&& o) : core(b, std::move(o)) {}
};
struct CDer : Side, CBase {
  static constexpr u8 TYPE = 2;
  explicit CDer(const Key& k) : CBase(BORN(CDer, 2), H_VAL, take(k), P_VAL) { core.commit(); }
  explicit CDer(Key&& k) : CBase(BORN(CDer, 2), H_VAL, take2(k), P_VAL) { k.consumed = true; core.commit(); }
  CDer(const Key& k, int w) : CBase(BORN(CDer, 2), H_VAL, take(k) + 3 * (i64)w, P_VAL) { core.commit(); }
  CDer(Key&& k, int w) : CBase(BORN(CDer, 2), H_VAL, take2(k) + 3 * (i64)w, P_VAL) { k.consumed = true; core.commit(); }
  CDer(std::initializer_list<int> l, const Key& k) : CBase(BORN(CDer, 2), H_LIST, list_val(l) + take(k), P_LIST) { core.commit(); }
  CDer(std::initializer_list<int> l, Key&& k) : CBase(BORN(CDer, 2), H_LIST, list_val(l) + take2(k), P_LIST) { k.consumed = true; core.commit(); }
  CDer() : CBase(BORN(CDer, 2), H_DEF, DEFV, P_DEF) { core.commit(); }
  CDer(const CDer& o) : Side(), CBase(BORN(CDer, 2), o.core) { core.commit(); }
  CDer(CDer&& o) : Side(), CBase(BORN(CDer, 2), std::move(o.core)) { core.commit(); }
  ~CDer() {}
  const void* whole() const override { return static_cast<const void*>(this); }
  u8 kind() const override { return 2; }
};
}  // namespace sim

#define SIM_HASH(N)                                             \
  namespace std {                                               \
  template <> struct hash<sim::N> : sim::HashOf<sim::N> {};     \
  }
SIM_HASH(Basic) SIM_HASH(Weak) SIM_HASH(NxMove) SIM_HASH(Big) SIM_HASH(Partial) SIM_HASH(NoDefault) SIM_HASH(CopyOnly) SIM_HASH(MoveOnly)
#endif
