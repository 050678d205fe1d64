// Simulation runtime interface: owned-memory arenas, object registry, fault
// points, operation windows, fibers and violations.  rt.cc is compiled without
// instrumentation; code under test is compiled with -fsanitize=thread (whose
// callbacks rt.cc implements itself) so every memory access of library code is
// a simulator event.
#ifndef SIM_RT_H
#define SIM_RT_H
#include <cstddef>
#include <cstdint>
#include <exception>
#include <new>
#include <stdexcept>

namespace sim {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

enum Point : u8 {
  P_NONE, P_ANY, P_ALLOC, P_ACONS, P_DEF, P_VAL, P_LIST, P_COPY, P_MOVE,
  P_CASSIGN, P_MASSIGN, P_VASSIGN, P_CMP, P_HASH, P_N
};
extern const char* const point_name[P_N];

enum Flavour : u8 { F_FAULT, F_BADALLOC, F_INT, F_RUNTIME, F_PTR, F_FLN };

struct Fault { u32 id; };
struct SimRuntime : std::runtime_error {
  u32 id;
  explicit SimRuntime(u32 i) : std::runtime_error("simulated failure"), id(i) {}
};
struct SimBadAlloc : std::bad_alloc {
  u32 id;
  explicit SimBadAlloc(u32 i) : id(i) {}
};

// Violation classes.
enum Cls : u8 {
  V_NONE, V_LEAK_MEM, V_LEAK_OBJ, V_DOUBLE_FREE, V_WRONG_ARENA, V_BAD_SIZE,
  V_OVERRUN, V_UAF, V_DEAD_USE, V_DOUBLE_CTOR, V_DOUBLE_DTOR, V_RELOCATION,
  V_BYPASS_CONS, V_BYPASS_DESTROY, V_DEAD_ALLOC, V_CONS_ARENA, V_VALUE, V_TYPE,
  V_IDENTITY, V_VALUELESS, V_ALLOCATOR, V_ALLOC_TAG, V_COUNTS, V_EXC_SWALLOWED,
  V_EXC_CHANGED, V_EXC_SPURIOUS, V_TERMINATE, V_CRASH, V_HANG, V_COMPARE,
  V_HASH, V_RACE, V_DIVERGE, V_NOEXCEPT, V_ARG, V_ACCESS, V_DEADLOCK, V_N
};
extern const char* const cls_name[V_N];
extern bool g_strict_copy;

// How an object came to life.
enum How : u8 { H_NONE, H_DEF, H_VAL, H_LIST, H_COPY, H_MOVE };

struct Frame { const void* p; std::size_t n; u8 kind; u32 arena; };

struct Ctx {
  bool inOp = false;
  bool active = false;
  u32 cnt[P_N] = {};
  u32 births = 0, deaths = 0, allocs = 0, deallocs = 0, keycopies = 0;
  u32 acons = 0, adest = 0;  // objects constructed and destroyed through an allocator
  u32 mcnt[4] = {0, 0, 0, 0};  // copies, moves, copy- and move-assignments of Cnt
  u32 throwing = 0;  // fallible points reached
  // armed fault
  Point fp = P_NONE;
  u32 fk = 0, fcount = 0;
  u8 fflav = 0;
  bool flate = false, fsticky = false;
  bool fired = false;
  u32 firedId = 0;
  Point firedPoint = P_NONE;
  u8 firedFlav = 0;
  bool firedLate = false;
  int opIndex = -1;
  Frame frames[64];
  int nframes = 0;
  u64 stepsAtBegin = 0;
  void reset_op() {
    inOp = false;
    for (auto& c : cnt) c = 0;
    acons = adest = births = deaths = allocs = deallocs = keycopies = throwing = 0;
    mcnt[0] = mcnt[1] = mcnt[2] = mcnt[3] = 0;
    fp = P_NONE; fk = 0; fcount = 0; fflav = 0; flate = fsticky = false;
    fired = false; firedId = 0; firedPoint = P_NONE; firedFlav = 0; firedLate = false;
    nframes = 0;
  }
};
extern Ctx* cx;

// ---- windows and fault points -------------------------------------------
void win_begin();
void win_end();
// Returns true if a "late" fault is due: the caller completes its effect and
// then calls raise().  Throws directly for an early fault.
bool point(Point p);
void note(Point p);  // count only: the operation cannot fail
[[noreturn]] void raise();
void note_keycopy();

// ---- memory --------------------------------------------------------------
enum BlkFlag : u8 { B_HARNESS = 1, B_TRACKCONS = 2 };
void* mem_alloc(u32 arena, u32 tag, std::size_t bytes, std::size_t n,
                std::size_t align, u8 flags, std::size_t esize);
void mem_free(u32 arena, void* p, std::size_t n, std::size_t esize);
struct BlkInfo { bool live; u32 arena, tag; const void* base; std::size_t bytes; u8 flags; };
bool mem_find(const void* p, BlkInfo& out);
u32 mem_live_lib();       // live non-harness blocks
u64 mem_live_bytes_lib();
void mem_check_redzones();
void frame_push(const void* p, std::size_t n, u8 kind, u32 arena);  // 1 construct, 2 destroy
void frame_pop();

// ---- object registry -----------------------------------------------------
struct ObjInfo { bool alive; u32 inst, src; u8 type; How how; const void* obj; u32 size; bool committed; };
u32 obj_born(const void* core, const void* obj, u32 size, u8 type, How how, u32 src);
void obj_commit(const void* core);
void obj_dead(const void* core, const void* self);
void obj_use(const void* core, const void* self);
u32 obj_live_lib();       // live objects inside non-harness arena blocks
u32 obj_live_total();
bool obj_by_inst(u32 inst, ObjInfo& out);
u32 obj_next_inst();

// ---- violations ----------------------------------------------------------
[[noreturn]] void violate(Cls c, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void trace(u64 x);  // mixes into the run's trace hash

// ---- runs ----------------------------------------------------------------
void rt_init();
void rt_run_begin(u64 knobs);   // resets arena and registry
u64 rt_steps();
extern u64 g_trace;
extern u64 g_step_limit;
extern bool g_quiet_steps;

// ---- fibers --------------------------------------------------------------
struct SchedDecision { u32 at; u8 to; };
void fibers_run(int n, void (*fn)(int), u64 schedSeed, u32 switchPer1024,
                const SchedDecision* fixed, int nfixed);
extern SchedDecision* g_decisions;
extern int g_ndecisions;
int* rt_share_decisions();  // count (and g_decisions) readable by the parent of a run
extern int g_maxdecisions;
extern u64 g_sched_points;
int fiber_self();
}  // namespace sim
#endif
