// Simulation runtime.  Never compiled with instrumentation.
#include "rt.h"

#include <cxxabi.h>
#include <initializer_list>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include "record.h"

namespace sim {

const char* const point_name[P_N] = {"none",   "any",  "alloc", "acons",
                                     "def",    "val",  "list",  "copy",
                                     "move",   "cassign", "massign", "vassign",
                                     "cmp",    "hash"};
const char* const cls_name[V_N] = {
    "none", "leak-memory", "leak-object", "double-free", "wrong-allocator-free",
    "bad-size-free", "overrun", "use-after-free", "dead-object-use",
    "construct-over-live", "double-destroy", "bitwise-relocation",
    "bypass-construct", "bypass-destroy", "dead-allocator",
    "construct-through-wrong-allocator", "value", "type", "identity",
    "valueless-state", "allocator", "allocator-identity", "operation-counts",
    "exception-swallowed", "exception-changed", "exception-spurious",
    "terminate", "crash", "hang", "compare", "hash", "race", "divergence",
    "noexcept", "argument", "access", "deadlock"};

Record* g_rec = nullptr;
static Ctx g_mainctx;
Ctx* cx = &g_mainctx;
u64 g_trace = 0;
u64 g_step_limit = 12000000;
bool g_quiet_steps = false;
static u64 g_steps = 0;

static inline u64 mix(u64 h, u64 x) {
  h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}
void trace(u64 x) { g_trace = mix(g_trace, x); }
u64 rt_steps() { return g_steps; }

// ------------------------------------------------------------- violations --
static void record_and_exit(Cls c, const char* msg) {
  if (g_rec && !g_rec->valid) {
    g_rec->cls = c;
    g_rec->opIndex = cx->opIndex;
    g_rec->fired = cx->fired;
    g_rec->firedPoint = cx->firedPoint;
    g_rec->trace = g_trace;
    g_rec->steps = g_steps;
    strncpy(g_rec->msg, msg, sizeof g_rec->msg - 1);
    g_rec->valid = 1;
  } else if (!g_rec) {
    fprintf(stderr, "violation %s: %s\n", cls_name[c], msg);
  }
  _exit(77);
}

void violate(Cls c, const char* fmt, ...) {
  char buf[480];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record_and_exit(c, buf);
  _exit(77);
}

static void on_signal(int sig, siginfo_t*, void*) {
  const char* m = sig == SIGSEGV  ? "SIGSEGV (bad access or stack exhaustion)"
                  : sig == SIGABRT ? "abort/assertion"
                  : sig == SIGILL  ? "undefined behaviour trap"
                  : sig == SIGFPE  ? "SIGFPE"
                  : sig == SIGALRM ? "wall-clock limit"
                                   : "fatal signal";
  record_and_exit(sig == SIGALRM ? V_HANG : V_CRASH, m);
}
static void on_terminate() {
  record_and_exit(V_TERMINATE, "std::terminate called");
  _exit(77);
}

// ------------------------------------------------------------------ arena --
static const u64 ARENA = 0x5a0000000000ull;
static const u64 ARENA_SZ = 64ull << 20;
struct Blk {
  u64 base, bytes, n, esize, span0, span1;
  u32 arena, tag;
  u8 flags;
  bool live;
  u64 align;
};
static const u32 MAXBLK = 1u << 18;
static Blk* g_blk;       // [1..]
static u32 g_nblk;
static u32* g_gran;      // per 8 bytes -> block index (0 = none)
static u64 g_cur;        // bump offset
static u64 g_knobs;
static u32 g_livelib;
static u64 g_livebytes;
static const unsigned char RZ = 0xFB, FRESH = 0xCB, FREED = 0xDD;

static void race_clear(u64 a, u64 n);
static void race_access(u64 a, u64 n, bool write, bool atomic);
static void sched_point();

static inline bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
static inline Blk* blk_at(u64 a) {
  u32 i = g_gran[(a - ARENA) >> 3];
  return i ? &g_blk[i] : nullptr;
}

void* mem_alloc(u32 arena, u32 tag, std::size_t bytes, std::size_t n,
                std::size_t align, u8 flags, std::size_t esize) {
  if (align < 8) align = 8;
  u64 size = (bytes + 7) & ~7ull;
  if (size == 0) size = 8;
  u64 addr = 0;
  u64 s0 = 0, s1 = 0;
  if ((g_knobs & 1)) {  // immediate LIFO reuse of a same-shaped block
    for (u32 i = g_nblk; i > 0; --i) {
      Blk& b = g_blk[i];
      if (!b.live && b.base && b.bytes == bytes && b.align == align &&
          blk_at(b.base) == &b) {
        addr = b.base; s0 = b.span0; s1 = b.span1;
        break;
      }
    }
  }
  if (!addr) {
    u64 a = ARENA + g_cur + 32;
    a = (a + align - 1) / align * align;
    if ((g_knobs & 2) && (a / align) % 2 == 0) a += align;
    addr = a;
    s0 = ARENA + g_cur;
    s1 = addr + size + 32;
    s1 = (s1 + 7) & ~7ull;
    if (s1 - ARENA > ARENA_SZ) violate(V_HANG, "arena exhausted (runaway allocation)");
    memset((void*)s0, RZ, s1 - s0);
    g_cur = s1 - ARENA;
  }
  if (g_nblk + 1 >= MAXBLK) violate(V_HANG, "runaway allocation count");
  u32 id = ++g_nblk;
  Blk& b = g_blk[id];
  b.base = addr; b.bytes = bytes; b.n = n; b.esize = esize; b.span0 = s0; b.span1 = s1;
  b.arena = arena; b.tag = tag; b.flags = flags; b.live = true; b.align = align;
  for (u64 g = (addr - ARENA) >> 3; g < (addr + size - ARENA) >> 3; ++g) g_gran[g] = id;
  memset((void*)addr, FRESH, bytes);
  if (bytes < size) memset((void*)(addr + bytes), RZ, size - bytes);
  race_clear(addr, size);
  if (!(flags & B_HARNESS)) {
    ++g_livelib;
    g_livebytes += bytes;
    if (cx->inOp) cx->allocs++;
    trace(mix(0xA110C, addr - ARENA) ^ bytes);
  }
  return (void*)addr;
}

static void check_rz(const Blk& b) {
  for (u64 a = b.span0; a < b.base; ++a)
    if (*(unsigned char*)a != RZ && !g_gran[(a - ARENA) >> 3])
      violate(V_OVERRUN, "write before an allocation");
  u64 e = b.base + b.bytes;
  for (u64 a = e; a < b.span1; ++a)
    if (*(unsigned char*)a != RZ)
      violate(V_OVERRUN, "write past the end of an allocation");
}

struct Ent { const void* core; u32 inst; };
static ObjInfo* g_inst;
static const void** g_core;
static u32 g_ninst;
static const u32 MAXINST = 1u << 20;

void mem_free(u32 arena, void* p, std::size_t n, std::size_t esize) {
  u64 a = (u64)p;
  if (!in_arena(a)) violate(V_DOUBLE_FREE, "deallocate of a pointer the allocator never returned");
  Blk* b = blk_at(a);
  if (!b || b->base != a) violate(V_DOUBLE_FREE, "deallocate of a pointer the allocator never returned");
  if (!b->live) violate(V_DOUBLE_FREE, "allocation returned twice");
  if (b->arena != arena) violate(V_WRONG_ARENA, "allocation of arena %u returned to arena %u", b->arena, arena);
  if (b->n != n || b->esize != esize)
    violate(V_BAD_SIZE, "allocated n=%llu esize=%llu, deallocated n=%llu esize=%llu",
            (unsigned long long)b->n, (unsigned long long)b->esize,
            (unsigned long long)n, (unsigned long long)esize);
  check_rz(*b);
  for (u32 i = g_ninst; i > 0; --i) {
    ObjInfo& o = g_inst[i];
    if (o.alive && (u64)o.obj >= a && (u64)o.obj < a + b->bytes)
      violate(V_LEAK_OBJ, "storage released while it holds a live object");
    if (g_ninst - i > 4096) break;
  }
  race_access(a, b->bytes, true, false);
  b->live = false;
  memset(p, FREED, b->bytes);
  if (!(b->flags & B_HARNESS)) {
    --g_livelib;
    g_livebytes -= b->bytes;
    if (cx->inOp) cx->deallocs++;
    trace(mix(0xF4EE, a - ARENA));
  }
}

bool mem_find(const void* p, BlkInfo& o) {
  u64 a = (u64)p;
  if (!in_arena(a)) return false;
  Blk* b = blk_at(a);
  if (!b) return false;
  o.live = b->live; o.arena = b->arena; o.tag = b->tag; o.base = (void*)b->base;
  o.bytes = b->bytes; o.flags = b->flags;
  return true;
}
u32 mem_live_lib() { return g_livelib; }
u64 mem_live_bytes_lib() { return g_livebytes; }
void mem_check_redzones() {
  for (u32 i = 1; i <= g_nblk; ++i)
    if (g_blk[i].live) check_rz(g_blk[i]);
}

static void check_access(u64 a, u64 n, bool write) {
  if (!in_arena(a)) return;
  Blk* b = blk_at(a);
  if (!b) violate(V_UAF, "%s outside any allocation", write ? "write" : "read");
  if (!b->live) violate(V_UAF, "%s of released storage", write ? "write" : "read");
  if (a + n > b->base + b->bytes)
    violate(V_OVERRUN, "%s past the end of an allocation", write ? "write" : "read");
}

static inline void on_access(u64 a, u64 n, bool write, bool atomic) {
  ++g_steps;
  if (g_steps > g_step_limit) violate(V_HANG, "step limit exceeded");
  if (cx->active && cx->inOp) sched_point();
  check_access(a, n, write);
  race_access(a, n, write, atomic);
}

// --------------------------------------------------------------- registry --
static const u32 HT = 1u << 16;
struct HEnt { const void* core; u32 inst; };
static HEnt* g_ht;  // open addressing, core==nullptr empty, (void*)1 tombstone
static u32 g_liveobj, g_liveobjlib;
static u32* g_htused;
static u32 g_nhtused;

static inline u32 hslot(const void* c) {
  u64 h = (u64)c * 0x9e3779b97f4a7c15ull;
  return (u32)(h >> 48) & (HT - 1);
}
static HEnt* ht_find(const void* c) {
  for (u32 i = hslot(c), k = 0; k < HT; i = (i + 1) & (HT - 1), ++k) {
    if (g_ht[i].core == c) return &g_ht[i];
    if (!g_ht[i].core) return nullptr;
  }
  return nullptr;
}
static void ht_put(const void* c, u32 inst) {
  HEnt* e = ht_find(c);
  if (e) { e->inst = inst; return; }
  for (u32 i = hslot(c);; i = (i + 1) & (HT - 1)) {
    if (!g_ht[i].core || g_ht[i].core == (void*)1) {
      if (!g_ht[i].core) {
        if (g_nhtused >= HT / 2) violate(V_HANG, "object registry exhausted");
        g_htused[g_nhtused++] = i;
      }
      g_ht[i].core = c; g_ht[i].inst = inst;
      return;
    }
  }
}

static bool is_lib_obj(const void* obj) {
  u64 a = (u64)obj;
  if (!in_arena(a)) return false;
  Blk* b = blk_at(a);
  return b && !(b->flags & B_HARNESS);
}

u32 obj_born(const void* core, const void* obj, u32 size, u8 type, How how, u32 src) {
  HEnt* e = ht_find(core);
  if (e) violate(V_DOUBLE_CTOR, "object constructed on top of a live object");
  if (g_ninst + 1 >= MAXINST) violate(V_HANG, "runaway object creation");
  u64 a = (u64)obj;
  if (in_arena(a)) {
    Blk* b = blk_at(a);
    if (!b || !b->live) violate(V_UAF, "object constructed in storage that is not allocated");
    if (a + size > b->base + b->bytes) violate(V_OVERRUN, "object does not fit its allocation");
    if ((b->flags & B_TRACKCONS)) {
      bool ok = false;
      for (int i = cx->nframes - 1; i >= 0 && !ok; --i)
        ok = cx->frames[i].kind == 1 && cx->frames[i].p == obj && cx->frames[i].n == size;
      if (!ok && cx->nframes < 64) violate(V_BYPASS_CONS, "owned object not constructed through the allocator");
    }
  }
  u32 id = ++g_ninst;
  g_inst[id] = ObjInfo{true, id, src, type, how, obj, size, false};
  g_core[id] = core;
  ht_put(core, id);
  ++g_liveobj;
  if (is_lib_obj(obj)) ++g_liveobjlib;
  if (cx->inOp) cx->births++;
  trace(mix(0xB0 + how, type));
  return id;
}
void obj_commit(const void* core) {
  HEnt* e = ht_find(core);
  if (e) g_inst[e->inst].committed = true;
}
void obj_dead(const void* core, const void* self) {
  HEnt* e = ht_find(core);
  if (!e) violate(self == core ? V_DOUBLE_DTOR : V_RELOCATION,
                  self == core ? "object destroyed twice" : "object destroyed at an address it was never constructed at");
  ObjInfo& o = g_inst[e->inst];
  if (self != core) violate(V_RELOCATION, "object overwritten bytewise");
  if (o.committed) {
    u64 a = (u64)o.obj;
    if (in_arena(a)) {
      Blk* b = blk_at(a);
      if (b && (b->flags & B_TRACKCONS)) {
        bool ok = false;
        for (int i = cx->nframes - 1; i >= 0 && !ok; --i)
          ok = cx->frames[i].kind == 2 && cx->frames[i].p == o.obj && cx->frames[i].n == o.size;
        if (!ok && cx->nframes < 64) violate(V_BYPASS_DESTROY, "owned object not destroyed through the allocator");
      }
    }
  }
  o.alive = false;
  if (is_lib_obj(o.obj)) --g_liveobjlib;
  --g_liveobj;
  if (cx->inOp) cx->deaths++;
  trace(mix(0xDE, e->inst));
  e->core = (void*)1;
}
void obj_use(const void* core, const void* self) {
  HEnt* e = ht_find(core);
  if (!e || self != core)
    violate(self != core ? V_RELOCATION : V_DEAD_USE,
            self != core ? "object bytes were copied or overwritten" : "operation on a destroyed object");
}
u32 obj_live_lib() { return g_liveobjlib; }
u32 obj_live_total() { return g_liveobj; }
bool obj_by_inst(u32 inst, ObjInfo& out) {
  if (!inst || inst > g_ninst) return false;
  out = g_inst[inst];
  return true;
}
u32 obj_next_inst() { return g_ninst + 1; }

void frame_push(const void* p, std::size_t n, u8 kind, u32 arena) {
  if (cx->nframes < 64) {
    cx->frames[cx->nframes] = Frame{p, n, kind, arena};
  }
  cx->nframes++;
  if (cx->inOp) ++(kind == 1 ? cx->acons : cx->adest);
  BlkInfo b;
  if (mem_find(p, b)) {
    if (!b.live) violate(V_UAF, "construct/destroy in released storage");
    if (b.arena != arena)
      violate(V_CONS_ARENA, "%s through arena %u in storage of arena %u",
              kind == 1 ? "construct" : "destroy", arena, b.arena);
  }
}
void frame_pop() { cx->nframes--; }

// ---------------------------------------------------------- fault points --
void win_begin() {
  cx->inOp = true;
  cx->stepsAtBegin = g_steps;
}
void win_end() { cx->inOp = false; }
void note(Point p) {
  if (!cx->inOp) return;
  cx->cnt[p]++;
  if (cx->active) sched_point();
}
void note_keycopy() { if (cx->inOp) cx->keycopies++; }

static u32 g_faultid;
void raise() {
  cx->fired = true;
  u32 id = ++g_faultid;
  cx->firedId = id;
  cx->firedFlav = cx->fflav;
  trace(mix(0xFA17, cx->firedPoint));
  if (g_rec) g_rec->faults[cx->firedPoint]++;
  switch (cx->fflav) {
    case F_BADALLOC: throw SimBadAlloc(id);
    case F_INT: throw (int)(1000000 + id);
    case F_RUNTIME: throw SimRuntime(id);
    case F_PTR: { static Fault f[1024]; Fault* p = &f[id % 1024]; p->id = id; throw (const Fault*)p; }
    default: throw Fault{id};
  }
}
bool point(Point p) {
  Ctx* c = cx;
  if (!c->inOp) return false;
  c->cnt[p]++;
  c->throwing++;
  trace(mix(0x90, p));
  if (c->active) sched_point();
  c = cx;
  if (c->fp != P_NONE && (c->fp == p || c->fp == P_ANY) && (!c->fired || c->fsticky)) {
    if (++c->fcount >= c->fk) {
      bool canLate = p >= P_DEF && p != P_MOVE && p != P_MASSIGN && p != P_CMP && p != P_HASH;
      c->firedPoint = p;
      c->firedLate = c->flate && canLate;
      if (c->firedLate) return true;
      raise();
    }
  }
  return false;
}

// ------------------------------------------------------------------ races --
struct Cell { u64 addr; u32 epoch; u8 wtid; bool watomic; u32 wclk; u32 rclk[8]; u8 ratomic; };
static const u32 RHT = 1u << 17;
static Cell* g_cells;
static u32 g_epoch = 1, g_ncells;
static u32 g_vc[8][8];
struct SyncVar { u64 addr; u32 vc[8]; };
static SyncVar g_sync[8192];
static int g_nsync;
static u16 g_synch[16384];  // hash of addresses: index + 1
static u32 g_fence = 0;     // fibers whose relaxed stores release (after a fence)
static bool g_racing = false;
static int g_self = 0;
static u64 g_stk_lo, g_stk_hi;

static Cell* cell(u64 a, bool create) {
  u64 h = (a * 0x9e3779b97f4a7c15ull) >> 40;
  for (u32 i = (u32)h & (RHT - 1), k = 0; k < RHT; i = (i + 1) & (RHT - 1), ++k) {
    Cell& c = g_cells[i];
    if (c.epoch != g_epoch) {
      if (!create) return nullptr;
      if (++g_ncells > RHT / 2) violate(V_HANG, "race shadow exhausted");
      memset(&c, 0, sizeof c);
      c.epoch = g_epoch; c.addr = a; c.wtid = 255;
      return &c;
    }
    if (c.addr == a) return &c;
  }
  return nullptr;
}
static void race_clear(u64 a, u64 n) {
  if (!g_racing) return;
  for (u64 i = 0; i < n; ++i)
    if (Cell* c = cell(a + i, false)) {
      c->wtid = 255; c->ratomic = 0;
      memset(c->rclk, 0, sizeof c->rclk);
    }
}
static inline bool tls_addr(u64 a) {
  u64 fs = (u64)__builtin_thread_pointer();
  return a + 0x10000 > fs && a < fs + 0x1000;
}
static void race_access(u64 a, u64 n, bool write, bool atomic) {
  if (!g_racing || !cx->inOp) return;
  if (a >= g_stk_lo && a < g_stk_hi) return;
  if (tls_addr(a)) return;
  int me = g_self;
  for (u64 i = 0; i < n; ++i) {
    Cell* c = cell(a + i, true);
    if (c->wtid != 255 && c->wtid != me && c->wclk > g_vc[me][c->wtid] && !(atomic && c->watomic))
      violate(V_RACE, "thread %d %ss memory that thread %d writes concurrently", me, write ? "write" : "read", c->wtid);
    if (write) {
      for (int t = 0; t < 8; ++t)
        if (t != me && c->rclk[t] > g_vc[me][t] && !(atomic && (c->ratomic >> t & 1)))
          violate(V_RACE, "thread %d writes memory that thread %d reads concurrently", me, t);
      c->wtid = (u8)me; c->wclk = g_vc[me][me]; c->watomic = atomic;
    } else {
      c->rclk[me] = g_vc[me][me];
      if (atomic) c->ratomic |= (u8)(1 << me); else c->ratomic &= (u8)~(1 << me);
    }
  }
}
static SyncVar* syncvar(u64 a) {
  u32 h = (u32)((a >> 2) * 0x9e3779b97f4a7c15ull >> 50);
  for (; g_synch[h]; h = (h + 1) & 16383) if (g_sync[g_synch[h] - 1].addr == a) return &g_sync[g_synch[h] - 1];
  if (g_nsync >= 8192) return nullptr;
  memset(&g_sync[g_nsync], 0, sizeof(SyncVar));
  g_sync[g_nsync].addr = a;
  g_synch[h] = (u16)(g_nsync + 1);
  return &g_sync[g_nsync++];
}
static void sync_reset() {
  if (g_nsync) memset(g_synch, 0, sizeof g_synch);
  g_nsync = 0;
  g_fence = 0;
}
static void sync_acquire(u64 a) {
  if (!g_racing) return;
  SyncVar* s = syncvar(a);
  if (!s) return;
  for (int t = 0; t < 8; ++t) if (s->vc[t] > g_vc[g_self][t]) g_vc[g_self][t] = s->vc[t];
}
static void sync_release(u64 a) {
  if (!g_racing) return;
  // Address 1 stands for all of them: what a fence acquires.
  for (u64 x : {a, (u64)1}) {
    SyncVar* s = syncvar(x);
    if (!s) continue;
    for (int t = 0; t < 8; ++t) if (g_vc[g_self][t] > s->vc[t]) s->vc[t] = g_vc[g_self][t];
  }
  g_vc[g_self][g_self]++;
}

// ----------------------------------------------------------------- fibers --
static const int MAXF = 8;
static const u64 FSTK = 256 << 10;
struct Fiber { ucontext_t uc; Ctx ctx; bool done; };
static Fiber* g_fib;
static ucontext_t g_main_uc;
static int g_nfib = 0;
static void (*g_fn)(int);
static u64 g_rng;
static u32 g_p;
static const SchedDecision* g_fixed;
static int g_nfixed, g_ifixed;
SchedDecision* g_decisions;
int g_ndecisions = 0, g_maxdecisions = 1 << 16;
static int* g_ndecsh;
int* rt_share_decisions() { return g_ndecsh; }
u64 g_sched_points = 0;
static char* g_stacks;
int fiber_self() { return g_self; }

static u64 rnd() {
  u64 z = (g_rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
// What a thread has of its own: the state of exception handling, and the
// thread-local variables of the program.
static const u64 MAXTLS = 4096;
static char* g_tls;
static u64 g_tlsn;
static const char* g_tlsinit;
static u64 g_tlsinitn;
struct ThreadState { char eh[16]; char tls[MAXTLS]; };
static ThreadState g_ts[MAXF + 1];  // the last: outside fibers
static void ts_find() {
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz <= MAXTLS && i->dlpi_tls_data) {
        g_tls = (char*)i->dlpi_tls_data; g_tlsn = i->dlpi_phdr[k].p_memsz;
        g_tlsinit = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); g_tlsinitn = i->dlpi_phdr[k].p_filesz;
      }
    return 1;  // the program itself only
  }, nullptr);
}
static void ts_new(int f) {
  memset(&g_ts[f], 0, sizeof g_ts[f]);
  memcpy(g_ts[f].tls, g_tlsinit, g_tlsinitn);
}
static void ts_save(int f) {
  memcpy(g_ts[f].eh, abi::__cxa_get_globals(), 16);
  if (g_tlsn) memcpy(g_ts[f].tls, g_tls, g_tlsn);
}
static void ts_load(int f) {
  memcpy(abi::__cxa_get_globals(), g_ts[f].eh, 16);
  if (g_tlsn) memcpy(g_tls, g_ts[f].tls, g_tlsn);
}

static void switch_to(int to) {
  int from = g_self;
  if (from == to) return;
  ts_save(from);
  g_self = to;
  cx = &g_fib[to].ctx;
  ts_load(to);
  swapcontext(&g_fib[from].uc, &g_fib[to].uc);
}
static int pick_runnable(bool random, int exclude) {
  int c[MAXF], n = 0;
  for (int i = 0; i < g_nfib; ++i) if (!g_fib[i].done && i != exclude) c[n++] = i;
  if (!n) return -1;
  return c[random ? rnd() % n : 0];
}
static void record_decision(int to) {
  if (g_ndecisions < g_maxdecisions) g_decisions[g_ndecisions++] = SchedDecision{(u32)g_sched_points, (u8)to};
  *g_ndecsh = g_ndecisions;
  trace(mix(0x5C4ED, g_sched_points * 8 + to));
}
static int decide(bool must, int self) {
  ++g_sched_points;
  if (g_fixed) {
    while (g_ifixed < g_nfixed && g_fixed[g_ifixed].at < g_sched_points) ++g_ifixed;
    if (g_ifixed < g_nfixed && g_fixed[g_ifixed].at == g_sched_points) {
      int t = g_fixed[g_ifixed].to;
      if (t < g_nfib && !g_fib[t].done && t != self) { record_decision(t); return t; }
    }
    if (must) { int t = pick_runnable(false, self); if (t >= 0) record_decision(t); return t; }
    return -1;
  }
  if (must || rnd() % 1024 < g_p) {
    int t = pick_runnable(true, self);
    if (t >= 0) record_decision(t);
    return t;
  }
  return -1;
}
static void sched_point() {
  int t = decide(false, g_self);
  if (t >= 0) switch_to(t);
}
static void yield_blocked(const char* what) {
  static u32 spins = 0;
  if (!cx->active) violate(V_DEADLOCK, "%s", what);
  if (++spins > 100000) violate(V_DEADLOCK, "%s", what);
  int t = decide(true, g_self);
  if (t < 0) violate(V_DEADLOCK, "%s", what);
  switch_to(t);
}
static void fiber_main(int i) {
  g_fn(i);
  g_fib[i].done = true;
  cx->inOp = false;
  int t = decide(true, i);
  if (t >= 0) {
    g_self = t;
    cx = &g_fib[t].ctx;
    ts_load(t);
    setcontext(&g_fib[t].uc);
  }
  ts_load(MAXF);
  setcontext(&g_main_uc);
}
void fibers_run(int n, void (*fn)(int), u64 seed, u32 p, const SchedDecision* fixed, int nfixed) {
  g_nfib = n; g_fn = fn; g_rng = seed; g_p = p;
  g_fixed = fixed; g_nfixed = nfixed; g_ifixed = 0;
  g_ndecisions = 0; g_sched_points = 0; *g_ndecsh = 0;
  ++g_epoch; g_ncells = 0; sync_reset();
  memset(g_vc, 0, sizeof g_vc);
  for (int i = 0; i < 8; ++i) g_vc[i][i] = 1;
  ts_save(MAXF);
  for (int i = 0; i < n; ++i) {
    g_fib[i].done = false;
    g_fib[i].ctx = Ctx();
    g_fib[i].ctx.active = true;
    ts_new(i);
    getcontext(&g_fib[i].uc);
    g_fib[i].uc.uc_stack.ss_sp = g_stacks + i * FSTK;
    g_fib[i].uc.uc_stack.ss_size = FSTK;
    g_fib[i].uc.uc_link = nullptr;
    makecontext(&g_fib[i].uc, (void (*)())fiber_main, 1, i);
  }
  g_racing = true;
  Ctx* save = cx;
  int t = decide(true, -1);
  g_self = t;
  cx = &g_fib[t].ctx;
  ts_load(t);
  swapcontext(&g_main_uc, &g_fib[t].uc);
  g_racing = false;
  g_nfib = 0;
  g_self = 0;
  cx = save;
}

// ------------------------------------------------------------------- init --
static char g_alt[64 << 10];
void rt_init() {
  ts_find();
  void* m = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != (void*)ARENA) { fprintf(stderr, "cannot map arena\n"); exit(3); }
  auto z = [](u64 n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); exit(3); }
    return p;
  };
  g_gran = (u32*)z(ARENA_SZ / 8 * 4);
  g_blk = (Blk*)z(MAXBLK * sizeof(Blk));
  g_inst = (ObjInfo*)z(MAXINST * sizeof(ObjInfo));
  g_core = (const void**)z(MAXINST * 8);
  g_ht = (HEnt*)z(HT * sizeof(HEnt));
  g_htused = (u32*)z(HT * 4);
  g_cells = (Cell*)z(RHT * sizeof(Cell));
  g_fib = new Fiber[MAXF];
  g_stacks = (char*)z(MAXF * FSTK);
  g_stk_lo = (u64)g_stacks; g_stk_hi = g_stk_lo + MAXF * FSTK;
  auto zs = [](u64 n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); exit(3); }
    return p;
  };
  g_decisions = (SchedDecision*)zs(g_maxdecisions * sizeof(SchedDecision));
  g_ndecsh = (int*)zs(4096);
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = g_alt; ss.ss_size = sizeof g_alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}
void rt_run_begin(u64 knobs) {
  if (g_cur) memset(g_gran, 0, (g_cur >> 3) * 4 + 64);
  g_cur = 0; g_nblk = 0; g_livelib = 0; g_livebytes = 0;
  g_knobs = knobs;
  for (u32 i = 0; i < g_nhtused; ++i) g_ht[g_htused[i]].core = nullptr;
  g_nhtused = 0;
  g_ninst = 0; g_liveobj = g_liveobjlib = 0;
  g_faultid = 0;
  g_steps = 0;
  g_trace = 0;
  g_mainctx = Ctx();
  cx = &g_mainctx;
  ++g_epoch; g_ncells = 0;
}
}  // namespace sim

// -------------------------------------------------- instrumentation hooks --
using sim::u64;
using sim::u8;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                    \
  void __tsan_read##N(void* a) { sim::on_access((u64)a, N, false, false); }                      \
  void __tsan_write##N(void* a) { sim::on_access((u64)a, N, true, false); }                      \
  void __tsan_read_write##N(void* a) { sim::on_access((u64)a, N, true, false); }                 \
  void __tsan_unaligned_read##N(void* a) { sim::on_access((u64)a, N, false, false); }            \
  void __tsan_unaligned_write##N(void* a) { sim::on_access((u64)a, N, true, false); }            \
  void __tsan_unaligned_read_write##N(void* a) { sim::on_access((u64)a, N, true, false); }       \
  void __tsan_volatile_read##N(void* a) { sim::on_access((u64)a, N, false, false); }             \
  void __tsan_volatile_write##N(void* a) { sim::on_access((u64)a, N, true, false); }             \
  void __tsan_unaligned_volatile_read##N(void* a) { sim::on_access((u64)a, N, false, false); }   \
  void __tsan_unaligned_volatile_write##N(void* a) { sim::on_access((u64)a, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (n) sim::on_access((u64)a, n, false, false); }
void __tsan_write_range(void* a, unsigned long n) { if (n) sim::on_access((u64)a, n, true, false); }
void __tsan_vptr_update(void** a, void*) { sim::on_access((u64)a, 8, true, false); }
void __tsan_vptr_read(void** a) { sim::on_access((u64)a, 8, false, false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  if (n) { sim::on_access((u64)s, n, false, false); sim::on_access((u64)d, n, true, false); }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  if (n) { sim::on_access((u64)s, n, false, false); sim::on_access((u64)d, n, true, false); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  if (n) sim::on_access((u64)d, n, true, false);
  return memset(d, c, n);
}
#define ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define REL(mo) (sim::g_fence >> sim::g_self & 1 || (mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define RMW(B, T, NAME, EXPR)                                                                  \
  T __tsan_atomic##B##_##NAME(volatile T* a, T v, int mo) {                                    \
    sim::on_access((u64)a, sizeof(T), true, true);                                             \
    if (ACQ(mo)) sim::sync_acquire((u64)a);                                                    \
    T old = *a; *a = (T)(EXPR);                                                                \
    if (REL(mo)) sim::sync_release((u64)a);                                                    \
    return old;                                                                                \
  }
#define ATOM(B, T)                                                                             \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                     \
    sim::on_access((u64)a, sizeof(T), false, true);                                            \
    if (ACQ(mo)) sim::sync_acquire((u64)a);                                                    \
    return *a;                                                                                 \
  }                                                                                            \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                  \
    sim::on_access((u64)a, sizeof(T), true, true);                                             \
    *a = v;                                                                                    \
    if (REL(mo)) sim::sync_release((u64)a);                                                    \
  }                                                                                            \
  RMW(B, T, exchange, v) RMW(B, T, fetch_add, old + v) RMW(B, T, fetch_sub, old - v)           \
  RMW(B, T, fetch_and, old & v) RMW(B, T, fetch_or, old | v) RMW(B, T, fetch_xor, old ^ v)     \
  RMW(B, T, fetch_nand, ~(old & v))                                                            \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {  \
    sim::on_access((u64)a, sizeof(T), true, true);                                             \
    T old = *a;                                                                                \
    if (old == *c) {                                                                           \
      if (ACQ(mo)) sim::sync_acquire((u64)a);                                                  \
      *a = v;                                                                                  \
      if (REL(mo)) sim::sync_release((u64)a);                                                  \
      return 1;                                                                                \
    }                                                                                          \
    if (ACQ(fmo)) sim::sync_acquire((u64)a);                                                   \
    *c = old;                                                                                  \
    return 0;                                                                                  \
  }                                                                                            \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {    \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                       \
  }                                                                                            \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {        \
    __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo);                             \
    return c;                                                                                  \
  }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
// Fences: more is ordered than need be (the data of every release), never less.
void __tsan_atomic_thread_fence(int mo) {
  if (ACQ(mo)) sim::sync_acquire(1);
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) sim::g_fence |= 1u << sim::g_self;
}
void __tsan_atomic_signal_fence(int) {}

// Function-local statics and mutexes under simulated threads.
int __cxa_guard_acquire(u64* g) {
  unsigned char* b = (unsigned char*)g;
  for (;;) {
    if (b[0]) { sim::sync_acquire((u64)g); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    sim::yield_blocked("static initialisation never completes");
  }
}
void __cxa_guard_release(u64* g) {
  unsigned char* b = (unsigned char*)g;
  b[1] = 0; b[0] = 1;
  sim::sync_release((u64)g);
}
void __cxa_guard_abort(u64* g) { ((unsigned char*)g)[1] = 0; }
}
namespace sim {
struct Mx { u64 addr; int owner; int depth; u32 readers; };
static Mx g_mx[1024];
static int g_nmx;
static Mx* mx(u64 a) {
  int spare = -1;
  for (int i = 0; i < g_nmx; ++i) {
    if (g_mx[i].addr == a) return &g_mx[i];
    if (g_mx[i].owner < 0 && !g_mx[i].readers) spare = i;
  }
  if (g_nmx >= 1024 && spare < 0) violate(V_HANG, "too many mutexes");
  Mx* m = g_nmx < 1024 ? &g_mx[g_nmx++] : &g_mx[spare];
  *m = Mx{a, -1, 0, 0};
  return m;
}
}  // namespace sim
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept(true) {
  if (!sim::cx || !sim::cx->active) return 0;
  sim::Mx* x = sim::mx((u64)m);
  if (x->owner == sim::fiber_self() && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return 0; }
  while (x->owner >= 0) sim::yield_blocked("mutex never released");
  x->owner = sim::fiber_self();
  x->depth = 1;
  sim::sync_acquire((u64)m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept(true) {
  if (!sim::cx || !sim::cx->active) return 0;
  sim::Mx* x = sim::mx((u64)m);
  if (x->owner >= 0) return 16;
  x->owner = sim::fiber_self(); x->depth = 1;
  sim::sync_acquire((u64)m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(true) {
  if (!sim::cx || !sim::cx->active) return 0;
  sim::Mx* x = sim::mx((u64)m);
  if (--x->depth <= 0) { sim::sync_release((u64)m); x->owner = -1; }
  return 0;
}
// Shared mutexes and one-time calls.
static int rw_lock(void* l, bool shared, bool wait) {
  if (!sim::cx || !sim::cx->active) return 0;
  sim::Mx* x = sim::mx((u64)l);
  while (x->owner >= 0 || (!shared && x->readers)) {
    if (!wait) return 16;
    sim::yield_blocked("shared mutex never released");
  }
  if (shared) x->readers++; else x->owner = sim::fiber_self();
  sim::sync_acquire((u64)l);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept(true) { return rw_lock(l, true, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept(true) { return rw_lock(l, false, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept(true) { return rw_lock(l, true, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept(true) { return rw_lock(l, false, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept(true) {
  if (!sim::cx || !sim::cx->active) return 0;
  sim::Mx* x = sim::mx((u64)l);
  sim::sync_release((u64)l);
  if (x->owner >= 0) x->owner = -1; else if (x->readers) x->readers--;
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  volatile int* b = (volatile int*)o;
  for (;;) {
    if (*b == 2) { sim::sync_acquire((u64)o); return 0; }
    if (*b == 0) break;
    sim::yield_blocked("one-time call never completes");
  }
  *b = 1;
  try { fn(); } catch (...) { *b = 0; throw; }
  *b = 2;
  sim::sync_release((u64)o);
  return 0;
}
}
