// Plan generation, the reference model for single-handle histories (S1/S2),
// search, minimisation and replay.
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>

#include "alloc.h"
#include "elems.h"
#include "env.h"
#include "gen.h"
#include "plan.h"
#include "record.h"

namespace sim {
Reg* Reg::head = nullptr;
const char* const op_name[O_MAX] = {
    "none", "def", "a_def", "val_l", "val_r", "a_val_l", "a_val_r", "key_l", "key_r", "a_key_l", "a_key_r", "inpl_l",
    "inpl_r", "a_inpl_l", "a_inpl_r", "inpl1", "a_inpl1", "list", "a_list", "copy", "a_copy", "move", "a_move", "dtor",
    "cassign", "massign", "fa_l", "fa_r", "fa_kl", "fa_kr", "fa_alias_l", "fa_alias_r", "swap", "roundtrip",
    "val_alias_l", "val_alias_r", "move_out", "set", "get", "cmp", "cmpv", "vcmp", "xcmp", "acmp", "hash",
    // 45..59
    nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
    nullptr, nullptr,
    // 60
    "n_push", "n_pop", "n_assign_copy", "n_assign_move", "n_ctor_copy", "n_ctor_move", "n_swap", "n_self", "n_hollow",
    "n_setval", "n_newroot", "n_drop", "n_temp_move", "n_cmp", "n_hash", nullptr,
    // 76
    "k_push", "k_emplace", "k_insert", "k_erase", "k_resize", "k_assign_vec", "k_move_vec", "k_swap_vec", "k_sort",
    "k_rotate", "k_reverse", "k_unique", "k_mapset", "k_maperase", "k_setins", "k_agg_copy", "k_agg_assign",
    "k_agg_move", "k_agg_swap", "k_opt", "k_nest", "k_selfins", "k_elem_assign", "k_elem_move", "k_elem_swap",
    "k_clear", "k_tuple", "k_array", "k_part", "k_hollow", "k_shared", "k_vv", "k_deq", "k_lst", "k_umap", "k_mset", "k_dfl",
    "k_opt2", "k_scoped", "k_algo"};

// ------------------------------------------------------------ classes --
static bool mem_class(Cls c) {
  switch (c) {
    case V_LEAK_MEM: case V_LEAK_OBJ: case V_DOUBLE_FREE: case V_WRONG_ARENA: case V_BAD_SIZE: case V_OVERRUN: case V_UAF:
    case V_DEAD_USE: case V_DOUBLE_CTOR: case V_DOUBLE_DTOR: case V_RELOCATION: case V_CRASH: case V_HANG: return true;
    default: return false;
  }
}
static bool copy_fam(u8 k) { return k == O_COPY || k == O_A_COPY || k == O_CASSIGN || k == N_ASSIGN_COPY || k == N_CTOR_COPY; }
static bool move_fam(u8 k) { return k == O_MOVE || k == O_A_MOVE || k == O_MASSIGN || k == O_SWAP || k == O_ROUNDTRIP || k == N_ASSIGN_MOVE || k == N_CTOR_MOVE || k == N_SWAP || k == N_TEMP_MOVE; }
static bool value_fam(u8 k) {
  return (k >= O_DEF && k <= O_A_LIST) || (k >= O_FA_L && k <= O_FA_ALIAS_R) || k == O_VAL_ALIAS_L || k == O_VAL_ALIAS_R;
}
static bool cmp_fam(u8 k) { return (k >= O_CMP && k <= O_HASH) || k == N_CMP || k == N_HASH; }

// Does a violation of class c at an operation of kind k break the property?
// fired: the injected fault had fired; vl: an operand was valueless before;
// other: it concerns a handle that is not an operand.
static bool relevant(int prop, Cls c, u8 k, bool fired, bool vl, bool other, int fam) {
  switch (prop) {
    case 0: return true;
    case 1: return mem_class(c) || c == V_BYPASS_DESTROY || c == V_CONS_ARENA || c == V_DEAD_ALLOC;
    case 2: return fired || c == V_EXC_SWALLOWED || c == V_EXC_CHANGED || c == V_EXC_SPURIOUS;
    case 3: return copy_fam(k) || (other && (c == V_VALUE || c == V_IDENTITY || c == V_TYPE || c == V_VALUELESS));
    case 4: return move_fam(k);
    case 5: return c == V_ALLOCATOR || c == V_ALLOC_TAG || c == V_WRONG_ARENA || c == V_BYPASS_CONS || c == V_BYPASS_DESTROY ||
                   c == V_CONS_ARENA || c == V_DEAD_ALLOC || c == V_BAD_SIZE;
    case 6: return c == V_VALUELESS || vl;
    case 7: return cmp_fam(k) || c == V_COMPARE || c == V_HASH;
    case 8: return true;
    case 9: return c == V_TERMINATE || c == V_NOEXCEPT || c == V_EXC_SPURIOUS || k == O_DTOR || k == O_GET ||
                   (move_fam(k) && fired);
    case 10: return true;
    case 11: return fam == 1 && (c == V_TYPE || c == V_VALUE || c == V_ACCESS || c == V_COUNTS || c == V_ARG || c == V_IDENTITY ||
                                 c == V_BYPASS_DESTROY || c == V_BYPASS_CONS || mem_class(c));
    case 12: return true;
    case 13: return false;
    case 14: return value_fam(k) || (k == O_CASSIGN && (c == V_COUNTS || c == V_IDENTITY || c == V_VALUE || c == V_ALLOC_TAG)) || c == V_ARG;
  }
  return true;
}

// ------------------------------------------------------------- envelope ----
int g_only_prop = 0;
bool g_strict_copy = false;
static bool g_anomaly;
static bool g_resync;
static u8 g_opkind;
static int g_fam;
bool g_digest = false;
static FILE* g_digest_f = nullptr;
static u64* g_set;            // shared open-addressing set of distinct keys
static const u32 SETN = 1u << 22;
enum { TAG_TRANS = 0, TAG_INTER = 1, TAG_RUN = 2 };
static u64 g_dhash;          // digest of the observable history of a run

static u64 mixk(u64 h, u64 x);
void digest_line(const char* s) {
  if (g_digest_f) fputs(s, g_digest_f);
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (u8)*s) * 1099511628211ull;
  g_dhash = mixk(g_dhash, h);
}

static u64 mixk(u64 h, u64 x) {
  h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static void set_add(u64 k, u64* counter, int tag) {
  if (!g_set) return;
  k = (k & ~3ull) | (u64)tag;
  if (!k) k = 4;
  for (u32 i = (u32)((k * 0x9e3779b97f4a7c15ull) >> 40) & (SETN - 1), n = 0; n < 4096; i = (i + 1) & (SETN - 1), ++n) {
    if (g_set[i] == k) return;
    if (!g_set[i]) { g_set[i] = k; ++*counter; return; }
  }
}

void op_begin(const Op& o, int idx, bool armFault) {
  cx->reset_op();
  cx->opIndex = idx;
  g_opkind = o.kind;
  g_anomaly = g_resync = false;
  if (armFault && o.fp != P_NONE) {
    cx->fp = (Point)o.fp; cx->fk = o.fk; cx->fflav = o.fflav; cx->flate = o.flate; cx->fsticky = o.fsticky;
  }
  trace(0x0B00 + o.kind);
}
// A monitor that does not bear on the property under check lets the run go on.
static void soft_flags(Cls c, bool other, const char* fmt, va_list ap) {
  bool vl = g_rec && (g_rec->probes[60] || g_rec->probes[61]);
  g_resync = true;
  if (!relevant(g_only_prop, c, g_opkind, cx->fired, vl, other, g_fam)) return;
  if (g_rec) g_rec->probes[62] = other;
  char b[480];
  vsnprintf(b, sizeof b, fmt, ap);
  violate(c, "%s", b);
}
__attribute__((format(printf, 2, 3))) static void soft(Cls c, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  soft_flags(c, false, fmt, ap);
  va_end(ap);
}
__attribute__((format(printf, 3, 4))) static void soft2(Cls c, bool other, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  soft_flags(c, other, fmt, ap);
  va_end(ap);
}
void mismatch(Cls c, bool other, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  soft_flags(c, other, fmt, ap);
  va_end(ap);
}
void op_caught() {
  u32 id = 0;
  int flav = -1;
  try {
    throw;
  } catch (const Fault& f) {
    id = f.id; flav = F_FAULT;
  } catch (const SimBadAlloc& b) {
    id = b.id; flav = F_BADALLOC;
  } catch (int x) {
    id = (u32)(x - 1000000); flav = F_INT;
  } catch (const SimRuntime& b) {
    id = b.id; flav = F_RUNTIME;
  } catch (const Fault* p) {
    id = p->id; flav = F_PTR;
  } catch (...) {
  }
  if (!cx->fired) { g_anomaly = true; soft(V_EXC_SPURIOUS, "operation threw although nothing it uses failed"); }
  else if (id != cx->firedId || flav != cx->firedFlav) { g_anomaly = true; soft(V_EXC_CHANGED, "a different exception reached the caller"); }
}
int op_end(bool threw) {
  if (cx->fired && !threw) { g_anomaly = true; soft(V_EXC_SWALLOWED, "failure of %s did not reach the caller", point_name[cx->firedPoint]); }
  if (cx->nframes != 0) cx->nframes = 0;
  trace(threw ? 0xBAD : 0x600D);
  return threw ? 1 : 0;
}
void stat_op(const Op& o, int outcome, u64 key) {
  if (!g_rec) return;
  g_rec->ops++;
  g_rec->opcount[o.kind]++;
  if (outcome) g_rec->failedOps++;
  u64 k = mixk(mixk(mixk(key, o.kind), outcome ? 1 + cx->firedPoint + 16 * cx->firedLate : 0), o.flav);
  set_add(k, &g_rec->ndistinct, TAG_TRANS);
}

// ------------------------------------------------------------ S1/S2 model --
struct MS {  // model of one handle
  bool live = false, valueless = false, moved = false;
  u8 type = 0;
  i64 val = 0;
  u32 inst = 0;
  const void* addr = nullptr;
  u32 arena = 0, tag = 0;
};
enum { MAXS = 24 };
static const CfgInfo* C;
static MS M[MAXS];
static void* S[MAXS];
static int NS;
static bool g_conc = false;
static u64 g_vhash;
static bool g_vhash_known;
static u64 g_cfgkey;

static bool IAE() { return C->aflags & A_IAE; }
static bool eqa(u32 x, u32 y) { return IAE() || x == y; }
static bool valued(const MS& m) { return m.live && !m.valueless; }

static int cmp3(i64 a, i64 b, bool& unordered, bool eq) {
  unordered = false;
  if (C->caps & C_PARTIAL) unordered = (a % 5 == 0) || (b % 5 == 0);
  if ((C->caps & C_DECADE) || ((C->caps & C_WEAK) && !eq)) {
    auto d = [](i64 v) { return v >= 0 ? v / 10 : -((9 - v) / 10); };
    a = d(a); b = d(b);
  }
  return a < b ? -1 : a > b ? 1 : 0;
}
// x, y: (valueless, value)
static int expect_cmp(int flav, bool xv, i64 x, bool yv, i64 y, bool hetero) {
  bool un = false;
  int c;
  if (xv || yv) c = (xv && yv) ? 0 : xv ? -1 : 1;
  else c = cmp3(x, y, un, flav <= 1);
  switch (flav) {
    case 0: return !un && c == 0;
    case 1: return un || c != 0;
    case 2: return !un && c < 0;
    case 3: return !un && c > 0;
    case 4: return !un && c <= 0;
    case 5: return !un && c >= 0;
  }
  int cat = hetero ? 1 : (C->caps & C_PARTIAL) ? 2 : (C->caps & (C_DECADE | C_WEAK)) ? 1 : 0;
  return (un ? 3 : c + 1) + 4 * cat;
}

static std::string desc(const Op& o) {
  std::string s = op_text(o);
  if (!s.empty()) s.pop_back();
  return s;
}

// Checks slot i against the expectation e.  freshOk: a new object is expected.
static void observe_check(int i, const MS& e, bool freshOk, const Op& o, bool failed, bool other) {
  Obs b;
  C->observe(S[i], b);
  const char* when = failed ? "after the failed operation" : "after the operation";
  BlkInfo bi;
  if (!b.valueless) {  // ownership, as a matter of fact
    if (!mem_find(b.addr, bi) || (bi.flags & B_HARNESS)) violate(V_DEAD_USE, "slot %d: owned object is not in allocator storage [%s]", i, desc(o).c_str());
    if (!bi.live) violate(V_UAF, "slot %d: owned object is in released storage [%s]", i, desc(o).c_str());
    if (!(C->aflags & A_MIN) && !IAE() && bi.arena != b.arena)
      violate(V_WRONG_ARENA, "slot %d: owned storage belongs to arena %u, handle reports %u [%s]", i, bi.arena, b.arena, desc(o).c_str());
    ObjInfo oi;
    if (!obj_by_inst(b.inst, oi) || !oi.alive) violate(V_DEAD_USE, "slot %d: owned object is not alive [%s]", i, desc(o).c_str());
    if (oi.obj != b.obj) violate(V_RELOCATION, "slot %d: owned object moved bytewise [%s]", i, desc(o).c_str());
    if (oi.obj < bi.base || (const char*)oi.obj + oi.size > (const char*)bi.base + bi.bytes)
      violate(V_OVERRUN, "slot %d: owned object exceeds its storage [%s]", i, desc(o).c_str());
  }
  if (C->caps & C_TAGS) {
    if (b.arena != e.arena) soft2(V_ALLOCATOR, other, "slot %d reports arena %u, expected %u, %s [%s]", i, b.arena, e.arena, when, desc(o).c_str());
    if (b.tag != e.tag) soft2(V_ALLOC_TAG, other, "slot %d reports allocator identity %u, expected %u, %s [%s]", i, b.tag, e.tag, when, desc(o).c_str());
  }
  if (b.valueless != e.valueless) {
    soft2(V_VALUELESS, other, "slot %d is %s, expected %s, %s [%s]", i, b.valueless ? "valueless" : "not valueless",
          e.valueless ? "valueless" : "not valueless", when, desc(o).c_str());
    return;
  }
  if (b.valueless) return;
  if (b.type != e.type) soft2(V_TYPE, other, "slot %d owns dynamic type %u, expected %u, %s [%s]", i, b.type, e.type, when, desc(o).c_str());
  if (b.val != e.val || b.moved != e.moved)
    soft2(V_VALUE, other, "slot %d holds %lld%s, expected %lld%s, %s [%s]", i, (long long)b.val, b.moved ? "(moved-from)" : "",
          (long long)e.val, e.moved ? "(moved-from)" : "", when, desc(o).c_str());
  if (!freshOk) {
    if (b.inst != e.inst || b.addr != e.addr)
      soft2(V_IDENTITY, other, "slot %d: owned object was replaced, %s [%s]", i, when, desc(o).c_str());
  } else if ((C->caps & C_TAGS) && bi.tag != e.tag)
    soft2(V_ALLOC_TAG, other, "slot %d: storage came from allocator identity %u, handle reports %u [%s]", i, bi.tag, e.tag, desc(o).c_str());
}
static void resync(u32 vis) {
  for (int i = 0; i < NS; ++i) {
    if (!(vis >> i & 1) || !M[i].live) continue;
    Obs b;
    C->observe(S[i], b);
    MS& m = M[i];
    m.valueless = b.valueless; m.arena = b.arena; m.tag = b.tag;
    m.type = b.type; m.val = b.val; m.inst = b.inst; m.addr = b.addr; m.moved = b.moved;
  }
}

struct Exp {
  How how = H_NONE;       // how a's new object is born
  u32 src = 0;            // from which instance
  bool chkSrc = false;
  int births = 0, deaths = 0;
  int cas = 0, mas = 0, vas = 0;
  bool noalloc = true;
  bool fresh = false;     // a owns a new object
  bool cmp = false, hash = false;
};

static bool is_ctor(u8 k) { return (k >= O_DEF && k <= O_A_MOVE) || k == O_VAL_ALIAS_L || k == O_VAL_ALIAS_R; }
static bool uses_b(u8 k) {
  return (k >= O_COPY && k <= O_A_MOVE) || k == O_CASSIGN || k == O_MASSIGN || k == O_FA_ALIAS_L || k == O_FA_ALIAS_R ||
         k == O_SWAP || k == O_VAL_ALIAS_L || k == O_VAL_ALIAS_R || k == O_CMP;
}

static bool step(const Op& op0, int idx, u32 vis, bool global, int ownLo, int ownHi);

static void do_dtor(int a, int idx, u32 vis, bool global, int lo, int hi) {
  Op d;
  d.kind = O_DTOR; d.a = (u8)a;
  step(d, idx, vis, global, lo, hi);
}

// Runs one operation, checks everything.  Returns false if it was skipped.
static bool step(const Op& op0, int idx, u32 vis, bool global, int ownLo, int ownHi) {
  Op o = op0;
  if (o.kind == 0 || o.kind >= O_LAST_S1) return false;
  if (C->aflags & A_MIN) { o.arena = AR_STATELESS; o.tag = 0; }
  else if (IAE()) o.arena = 0;
  int a = o.a, b = o.b;
  bool ctor = is_ctor(o.kind), ub = uses_b(o.kind);
  if (ctor && ub && a == b) return false;
  if (ub && !M[b].live) return false;
  if ((o.kind == O_GET && !(o.ty & 0x80)) || o.kind == O_SET || o.kind == O_MOVE_OUT) { if (!valued(M[a])) return false; }
  if (o.kind == O_FA_ALIAS_L || o.kind == O_FA_ALIAS_R || o.kind == O_VAL_ALIAS_L || o.kind == O_VAL_ALIAS_R) {
    if (!valued(M[b])) return false;
  }
  if (o.kind == O_VAL_ALIAS_L && C->fam == 1 && M[b].type != 1) {/* base subobject copy slices to the base type */}
  if (!ctor && !M[a].live) return false;
  if (o.kind == O_SWAP && a != b && !(C->aflags & A_POCS) && !eqa(M[a].arena, M[b].arena)) return false;
  if (o.kind == O_SWAP && o.flav == 2 && (!eqa(M[a].arena, M[b].arena) || a == b)) return false;
  if (o.kind == O_FA_ALIAS_R && a == b) return false;
  if (ctor && M[a].live) do_dtor(a, idx, vis, global, ownLo, ownHi);

  // Known finding K1: a propagating, unequal move assignment is declared
  // non-throwing but allocates; failures there are probed separately.
  bool k1 = o.kind == O_MASSIGN && a != b && (C->aflags & A_POCMA) && !IAE() && M[b].live && !M[b].valueless &&
            M[a].live && M[a].arena != M[b].arena;
  bool arm = !(k1 && !(g_rec && (op0.ty & 0x80)));

  MS before[MAXS];
  for (int i = 0; i < NS; ++i) before[i] = M[i];
  u32 liveMem = mem_live_lib(), liveObj = obj_live_lib(), liveTotal = obj_live_total();
  u64 liveBytes = mem_live_bytes_lib();
  (void)liveTotal;

  Res r;
  bool supported = true;
  if (g_rec && !g_conc) { g_rec->probes[60] = M[a].live && M[a].valueless; g_rec->probes[61] = ub && M[b].valueless; }
  int failed = guarded(o, idx, arm, [&] { supported = C->exec(o, S[a], ub ? S[b] : nullptr, r); });
  if (!supported) {
    if (g_digest && idx >= 0) { char b2[64]; snprintf(b2, sizeof b2, "%d unsupported\n", idx); digest_line(b2); }
    return false;
  }
  Ctx& c = *cx;
  const MS& B = before[b];
  const MS& A = before[a];

  // ---- expectation -------------------------------------------------------
  MS e = A;
  MS eb = B;
  Exp x;
  bool movesCopy[2] = {false, false};
  auto mc = [&](u8 t) { return (C->movecopies_mask >> t & 1) != 0; };
  auto set_alloc = [&](MS& m, u32 ar, u32 tg) { m.arena = ar; m.tag = tg; };
  auto fresh_from = [&](const MS& s, How how) {
    e.live = true; e.valueless = false; e.type = s.type; e.val = s.val; e.moved = s.moved;
    x.fresh = true; x.how = how; x.src = s.inst; x.chkSrc = true; x.births = 1; x.noalloc = false;
  };
  auto new_val = [&](How how, i64 v, u8 type) {
    e.live = true; e.valueless = false; e.type = type; e.val = v; e.moved = false;
    x.fresh = true; x.how = how; x.births = 1; x.noalloc = false;
  };
  auto mark_moved = [&](MS& s) {
    if (!mc(s.type)) { s.val = MOVEDV; s.moved = true; }
  };
  (void)movesCopy;
  u8 ty = C->fam == 0 ? 1 : 0;  // polymorphic: type codes are read from the table below
  bool bFuzzy = false;          // source of an unequal move: valueless or moved-from
  int argExpect = -1;           // 0 arg untouched, 1 arg moved-from
  int keyExpect = -1;
  u32 defAr = IAE() ? 0 : (u32)AR_DEF, defTag = TAG_DEF;
  if (C->aflags & A_MIN) { defAr = AR_STATELESS; defTag = 0; }
  auto def_alloc = [&] { set_alloc(e, defAr, defTag); };
  auto op_alloc = [&] { set_alloc(e, o.arena, o.tag); };
  if (C->fam == 1) ty = C->typecode[o.ty % C->ntypes];

  switch (o.kind) {
    case O_DEF: new_val(H_DEF, DEFV, C->fam ? 1 : ty); def_alloc(); break;
    case O_A_DEF: new_val(H_DEF, DEFV, C->fam ? 1 : ty); op_alloc(); break;
    case O_VAL_L: case O_A_VAL_L:
      new_val(H_COPY, o.v, ty); x.src = r.argInst; x.chkSrc = true; argExpect = 0;
      if (o.kind == O_VAL_L) def_alloc(); else op_alloc();
      break;
    case O_VAL_R: case O_A_VAL_R:
      new_val(mc(ty) ? H_COPY : H_MOVE, o.v, ty); x.src = r.argInst; x.chkSrc = true; argExpect = mc(ty) ? 0 : 1;
      if (o.kind == O_VAL_R) def_alloc(); else op_alloc();
      break;
    case O_KEY_L: new_val(H_VAL, o.v, ty); def_alloc(); keyExpect = 0; break;
    case O_KEY_R: new_val(H_VAL, o.v, ty); def_alloc(); keyExpect = 1; break;
    case O_A_KEY_L: new_val(H_VAL, o.v, ty); op_alloc(); keyExpect = 0; break;
    case O_A_KEY_R: new_val(H_VAL, o.v, ty); op_alloc(); keyExpect = 1; break;
    case O_INPL_L: new_val(H_VAL, o.v + 3 * (i64)o.w, ty); def_alloc(); keyExpect = 0; break;
    case O_INPL_R: new_val(H_VAL, o.v + 3 * (i64)o.w, ty); def_alloc(); keyExpect = 1; break;
    case O_A_INPL_L: new_val(H_VAL, o.v + 3 * (i64)o.w, ty); op_alloc(); keyExpect = 0; break;
    case O_A_INPL_R: new_val(H_VAL, o.v + 3 * (i64)o.w, ty); op_alloc(); keyExpect = 1; break;
    case O_INPL1: new_val(H_VAL, o.v, ty); def_alloc(); keyExpect = o.flav != 1; break;
    case O_A_INPL1: new_val(H_VAL, o.v, ty); op_alloc(); keyExpect = o.flav != 1; break;
    case O_LIST: case O_A_LIST: {
      std::initializer_list<int> l = {(int)(o.v & 0x3ff), (int)((o.v >> 10) & 0x3ff), 5};
      new_val(H_LIST, list_val(l) + o.w, ty);
      keyExpect = o.flav == 2 ? 0 : 1;
      if (o.kind == O_LIST) def_alloc(); else op_alloc();
      break;
    }
    case O_COPY: case O_A_COPY:
      e = MS(); e.live = true;
      if (B.valueless) e.valueless = true; else fresh_from(B, H_COPY);
      if (o.kind == O_A_COPY) op_alloc();
      else if (C->aflags & A_SOCCC) set_alloc(e, IAE() ? 0 : (u32)AR_SOCCC, B.tag + 1);
      else set_alloc(e, B.arena, B.tag);
      break;
    case O_MOVE: case O_A_MOVE: {
      e = MS(); e.live = true;
      u32 ar = o.kind == O_A_MOVE ? o.arena : B.arena, tg = o.kind == O_A_MOVE ? o.tag : B.tag;
      if (B.valueless) e.valueless = true;
      else if (eqa(ar, B.arena)) { e = B; eb.valueless = true; }
      else { fresh_from(B, mc(B.type) ? H_COPY : H_MOVE); mark_moved(eb); bFuzzy = true; }
      set_alloc(e, ar, tg);
      break;
    }
    case O_DTOR: e.live = false; x.deaths = valued(A); break;
    case O_CASSIGN: {
      if (a == b) break;
      bool prop = C->aflags & A_POCCA;
      if (B.valueless) { x.deaths = valued(A); e.valueless = true; }
      else if (C->fam == 0 && (C->caps & C_CASSIGN) && valued(A) && eqa(A.arena, B.arena)) {
        e.val = B.val; e.moved = B.moved; x.cas = 1;
      } else { x.deaths = valued(A); fresh_from(B, H_COPY); }
      if (prop) set_alloc(e, B.arena, B.tag);
      break;
    }
    case O_MASSIGN: {
      if (a == b) break;
      bool prop = C->aflags & A_POCMA;
      x.deaths = valued(A);
      if (B.valueless) e.valueless = true;
      else if (eqa(A.arena, B.arena)) {
        u32 ar = e.arena, tg = e.tag;
        e = B; set_alloc(e, ar, tg);
        eb.valueless = true;
      } else { fresh_from(B, mc(B.type) ? H_COPY : H_MOVE); mark_moved(eb); bFuzzy = true; }
      if (prop) set_alloc(e, B.arena, B.tag);
      break;
    }
    case O_FA_L: case O_FA_R: {
      bool rv = o.kind == O_FA_R;
      if (valued(A)) {
        e.val = o.v; e.moved = false;
        if (rv && !C->masscopies) x.mas = 1; else x.cas = 1;
        argExpect = rv && !C->masscopies;
      } else { new_val(rv && !mc(1) ? H_MOVE : H_COPY, o.v, 1); x.src = r.argInst; x.chkSrc = true; argExpect = rv && !mc(1); }
      break;
    }
    case O_FA_KL: case O_FA_KR:
      if (valued(A)) { e.val = o.v; e.moved = false; x.vas = 1; } else new_val(H_VAL, o.v, 1);
      keyExpect = o.kind == O_FA_KR;
      break;
    case O_FA_ALIAS_L:
      if (valued(A)) { e.val = B.val; e.moved = B.moved; x.cas = 1; } else fresh_from(B, H_COPY);
      break;
    case O_FA_ALIAS_R:
      if (valued(A)) {
        e.val = B.val; e.moved = B.moved;
        if (C->masscopies) x.cas = 1; else { x.mas = 1; mark_moved(eb); }
      } else { fresh_from(B, mc(1) ? H_COPY : H_MOVE); mark_moved(eb); }
      break;
    case O_SWAP:
      if (a == b) break;
      e = B; eb = A;
      if (!(C->aflags & A_POCS) || o.flav == 2) { set_alloc(e, A.arena, A.tag); set_alloc(eb, B.arena, B.tag); }
      if (o.flav == 2 && (C->aflags & A_POCMA)) { set_alloc(e, B.arena, B.tag); set_alloc(eb, A.arena, A.tag); }
      break;
    case O_ROUNDTRIP: break;
    case O_VAL_ALIAS_L:
      e = MS();
      fresh_from(B, H_COPY);
      if (C->fam == 1) { e.type = 1; x.chkSrc = true; }
      op_alloc();
      break;
    case O_VAL_ALIAS_R:
      e = MS();
      fresh_from(B, mc(1) ? H_COPY : H_MOVE); mark_moved(eb); op_alloc();
      break;
    case O_MOVE_OUT: mark_moved(e); x.births = 1; x.deaths = 1; break;
    case O_SET: e.val = o.v; e.moved = false; break;
    case O_GET: break;
    case O_CMP: case O_CMPV: case O_VCMP: case O_XCMP: case O_ACMP: x.cmp = true; break;
    case O_HASH: x.hash = true; break;
  }

  auto oper = [&](int i) { return i == a || (ub && i == b); };
  if (g_anomaly) {
    if (ctor) { M[a] = MS(); M[a].live = !failed; }
    else if (o.kind == O_DTOR) M[a].live = false;
    resync(vis);
  } else
  // ---- failure -----------------------------------------------------------
  if (failed) {
    if (c.firedLate && !x.fresh && (c.firedPoint == P_CASSIGN || c.firedPoint == P_VASSIGN) && (x.cas || x.vas)) {
      M[a].val = e.val; M[a].moved = e.moved;
    }
    if (r.hasArg && (r.argVal != o.v || r.argMoved))
      soft(V_ARG, "value argument was consumed by the failed operation [%s]", desc(o).c_str());
    if (r.keyConsumed == 1 && !c.firedLate) soft(V_ARG, "argument was consumed by the failed operation [%s]", desc(o).c_str());
    for (int i = 0; i < NS; ++i)
      if ((vis >> i & 1) && M[i].live) observe_check(i, M[i], false, o, true, !oper(i));
    if (g_resync) resync(vis);
    if (global) {
      if (mem_live_lib() != liveMem || mem_live_bytes_lib() != liveBytes)
        soft(mem_live_lib() > liveMem ? V_LEAK_MEM : V_DOUBLE_FREE, "failed operation changed the number of live allocations from %u to %u [%s]", liveMem, mem_live_lib(), desc(o).c_str());
      if (obj_live_lib() != liveObj) soft(V_LEAK_OBJ, "failed operation changed the number of live owned objects from %u to %u [%s]", liveObj, obj_live_lib(), desc(o).c_str());
    }
  } else {
    // ---- success ---------------------------------------------------------
    // unequal move sources may be valueless or moved-from
    bool bDies = false;
    if (bFuzzy && b != a) {
      Obs ob;
      C->observe(S[b], ob);
      if (ob.valueless) { eb.valueless = true; bDies = true; }
    }
    M[a] = e;
    if (ub && b != a) M[b] = eb;
    // counts
    int fallible = c.throwing;
    if (o.kind == O_SET || o.kind == O_GET) x.births = 0;
    if (x.births != (int)c.births)
      soft(V_COUNTS, "%u owned objects were constructed, expected %d [%s]", c.births, x.births, desc(o).c_str());
    if (x.deaths + (bDies ? 1 : 0) != (int)c.deaths)
      soft(V_COUNTS, "%u owned objects were destroyed, expected %d [%s]", c.deaths, x.deaths + bDies, desc(o).c_str());
    if (x.cas != (int)c.cnt[P_CASSIGN] || x.mas != (int)c.cnt[P_MASSIGN] || x.vas != (int)c.cnt[P_VASSIGN])
      soft(V_COUNTS, "owned-object assignments copy=%u move=%u value=%u, expected %d %d %d [%s]", c.cnt[P_CASSIGN],
              c.cnt[P_MASSIGN], c.cnt[P_VASSIGN], x.cas, x.mas, x.vas, desc(o).c_str());
    if (x.noalloc && o.kind != O_MOVE_OUT && (c.allocs || (c.deallocs && x.deaths == 0)))
      soft(V_COUNTS, "operation allocated or released storage needlessly (%u, %u) [%s]", c.allocs, c.deallocs, desc(o).c_str());
    if (!x.cmp && !x.hash && (c.cnt[P_CMP] || c.cnt[P_HASH]))
      soft(V_COUNTS, "operation compares or hashes the owned object [%s]", desc(o).c_str());
    if (c.keycopies) soft(V_ARG, "forwarded argument was copied or moved on the way [%s]", desc(o).c_str());
    // arguments
    if (r.hasArg && argExpect >= 0 && (int)r.argMoved != argExpect)
      soft(V_ARG, "value argument %s [%s]", r.argMoved ? "was consumed although passed as lvalue" : "was not moved from", desc(o).c_str());
    if (r.keyConsumed >= 0 && keyExpect >= 0 && (C->caps & C_KEYED) && r.keyConsumed != keyExpect)
      soft(V_ARG, "argument value category was not preserved [%s]", desc(o).c_str());
    // results
    if (x.cmp) {
      bool av = A.valueless, bv = false;
      i64 xv = A.val, yv = o.v;
      if (o.kind == O_CMP) { bv = B.valueless; yv = B.val; }
      if (o.kind == O_XCMP || o.kind == O_ACMP) bv = o.ty & 1;
      int want;
      bool rev = o.kind == O_VCMP || ((o.kind == O_XCMP || o.kind == O_ACMP) && (o.ty & 2));
      bool het = o.kind == O_XCMP;
      want = rev ? expect_cmp(o.flav, bv, yv, av, xv, het) : expect_cmp(o.flav, av, xv, bv, yv, het);
      if (r.cmp != want) soft(V_COMPARE, "comparison %u of %s%lld with %s%lld gave %d, expected %d [%s]", o.flav, av ? "valueless/" : "",
                                 (long long)xv, bv ? "valueless/" : "", (long long)yv, r.cmp, want, desc(o).c_str());
    }
    if (x.hash) {
      if (A.valueless) {
        if (g_vhash_known && g_vhash != r.hash) soft(V_HASH, "valueless handles hash differently");
        g_vhash = r.hash; g_vhash_known = true;
      } else if (r.hash != hash_val(A.val)) soft(V_HASH, "hash differs from the owned value's hash [%s]", desc(o).c_str());
    }
    for (int i = 0; i < r.naddrs; ++i)
      if (r.addrs[i] != A.addr) soft(V_ACCESS, "access path %d reaches a different object [%s]", i, desc(o).c_str());
    // promised not to fail
    if (!k1) {
      bool nx = (o.kind == O_MOVE && C->nx.movector) || (o.kind == O_A_MOVE && C->nx.amove) || (o.kind == O_MASSIGN && C->nx.moveassign) ||
                (o.kind == O_SWAP && o.flav == 0 && C->nx.swap) || (o.kind == O_SWAP && o.flav == 1 && C->nx.fswap) || o.kind == O_DTOR || o.kind == O_GET;
      if (nx && fallible) soft(V_NOEXCEPT, "a non-throwing operation reached %d steps that may fail [%s]", fallible, desc(o).c_str());
    }
    for (int i = 0; i < NS; ++i)
      if ((vis >> i & 1) && M[i].live) {
        bool fr = i == a && x.fresh;
        MS want = M[i];
        observe_check(i, want, fr, o, false, !oper(i));
        Obs ob;
        if (fr) C->observe(S[i], ob);
        if (fr && !ob.valueless) {
          ObjInfo oi;
          obj_by_inst(ob.inst, oi);
          if (oi.how != x.how) soft(V_COUNTS, "owned object came to be by %d, expected %d [%s]", oi.how, x.how, desc(o).c_str());
          if (x.chkSrc && oi.src != x.src) soft(V_IDENTITY, "owned object was not made from the source object [%s]", desc(o).c_str());
          M[i].inst = ob.inst;
          M[i].addr = ob.addr;
        }
      }
    if (g_resync) resync(vis);
    if (global) {
      u32 n = 0;
      for (int i = 0; i < NS; ++i) n += valued(M[i]);
      if (obj_live_lib() != n) violate(obj_live_lib() > n ? V_LEAK_OBJ : V_DEAD_USE, "%u live owned objects, handles own %u [%s]", obj_live_lib(), n, desc(o).c_str());
      if (n == 0 && mem_live_lib()) violate(V_LEAK_MEM, "%u allocations remain, no handle owns anything [%s]", mem_live_lib(), desc(o).c_str());
    }
  }
  // ---- statistics and digest ---------------------------------------------
  u64 key = g_cfgkey;
  key = mixk(key, (A.live ? 1 + A.valueless : 0) + 4 * (ub ? 1 + B.valueless : 0) + 16 * (a == b) +
                      32 * (ub && eqa(A.arena, B.arena)) + 64 * A.type + 1024 * B.type + 16384 * (o.kind == O_A_COPY || o.kind == O_A_MOVE ? 1 + eqa(o.arena, B.arena) : 0));
  if (idx >= 0) stat_op(o, failed, key);
  if (g_digest && idx >= 0) {
    char buf[160];
    snprintf(buf, sizeof buf, "%d %s %s cmp=%d hash=%llu arg=%d/%d exc=%s made=%u gone=%u mem=%u/%u", idx, op_name[o.kind], failed ? "failed" : "ok", r.cmp,
             (unsigned long long)r.hash, (int)r.argMoved, r.keyConsumed, failed ? point_name[c.firedPoint] : "-", c.births, c.deaths, c.allocs, c.deallocs);
    digest_line(buf);
    snprintf(buf, sizeof buf, " used=%u/%u/%u/%u/%u", c.cnt[P_CASSIGN], c.cnt[P_MASSIGN], c.cnt[P_VASSIGN], c.cnt[P_CMP] != 0, c.cnt[P_HASH]);  // < or <=>: the number differs by design
    digest_line(buf);
    for (int i = 0; i < NS; ++i) {
      if (!M[i].live) { digest_line(" |-"); continue; }
      Obs ob;
      C->observe(S[i], ob);
      if (ob.valueless) snprintf(buf, sizeof buf, " |valueless %u/%u", ob.arena, ob.tag);
      else snprintf(buf, sizeof buf, " |%u:%lld%s %u/%u", ob.type, (long long)ob.val, ob.moved ? "m" : "", ob.arena, ob.tag);
      digest_line(buf);
    }
    digest_line("\n");
  }
  return true;
}

// ---------------------------------------------------------- run execution --
static const CfgInfo* find_cfg(const std::string& n) {
  for (Reg* r = Reg::head; r; r = r->next) if (r->c && n == r->c->name) return r->c;
  return nullptr;
}
static const ScenInfo* find_scen(const std::string& n) {
  for (Reg* r = Reg::head; r; r = r->next) if (r->s && n == r->s->name) return r->s;
  return nullptr;
}

static const Plan* g_plan;
static void fiber_body(int f) {
  u32 vis = 3u | (3u << (2 + 2 * f));
  for (size_t i = 0; i < g_plan->ops.size(); ++i) {
    Op o = g_plan->ops[i];
    if (o.fiber != f) continue;
    // Own slots: 2+2f, 3+2f.  Shared: 0, 1 (read only).
    auto own = [&](u8 s) { return (u8)(2 + 2 * f + (s & 1)); };
    auto any = [&](u8 s) { return (s & 2) ? own(s) : (u8)(s & 1); };
    switch (o.kind) {
      case O_COPY: case O_A_COPY: case O_CASSIGN: case O_FA_ALIAS_L: case O_VAL_ALIAS_L:
        o.a = own(o.a); o.b = any(o.b);
        if (o.b < 2) o.flav = o.flav == 1 ? 0 : o.flav;
        break;
      case O_CMP: case O_CMPV: case O_VCMP: case O_XCMP: case O_ACMP: case O_HASH: case O_GET:
        o.a = any(o.a); o.b = any(o.b);
        if (o.kind == O_GET && o.a < 2) o.ty |= 0x80;
        break;
      default: o.a = own(o.a); o.b = own(o.b);
    }
    step(o, (int)i, vis, false, 2 + 2 * f, 3 + 2 * f);
  }
}

bool threaded(int max) { return g_plan->nfib > 0 && g_plan->nfib <= max; }
void threads_run(void (*fn)(int)) {
  const Plan& p = *g_plan;
  // An empty schedule is a schedule too (no switches); an empty vector's data() may be null, which means "search".
  static const std::remove_reference<decltype(p.sched[0])>::type none{};
  fibers_run(p.nfib, fn, p.schedSeed, p.switchP, p.fixedSched ? (p.sched.empty() ? &none : p.sched.data()) : nullptr, (int)p.sched.size());
  if (!g_rec) return;
  g_rec->schedPoints += g_sched_points;
  g_rec->switches += g_ndecisions;
  u64 h = 1;
  for (int i = 0; i < g_ndecisions; ++i) h = mixk(h, g_decisions[i].at * 8 + g_decisions[i].to);
  set_add(mixk(h, 0x1A7E), &g_rec->ninter, TAG_INTER);
}

static void run_plan(const Plan& p) {
  g_plan = &p;
  if (p.scen >= 3) {
    const ScenInfo* s = find_scen(p.cfg);
    if (!s) return;
    g_cfgkey = std::hash<std::string>()(p.cfg);
    g_fam = s->fam;
    if (s->nest) nest_run(*s, p.ops.data(), (int)p.ops.size(), p.knobs);
    else s->run(p.ops.data(), (int)p.ops.size(), p.knobs);
    return;
  }
  C = find_cfg(p.cfg);
  if (!C) return;
  g_fam = C->fam;
  g_cfgkey = std::hash<std::string>()(p.cfg);
  g_vhash_known = false;
  NS = p.nslots > MAXS ? MAXS : p.nslots;
  if (p.scen == 2) NS = 2 + 2 * p.nfib;
  for (int i = 0; i < NS; ++i) {
    M[i] = MS();
    S[i] = mem_alloc(77, 0, C->hsize, 1, C->halign, B_HARNESS, C->hsize);
  }
  u32 all = (1u << NS) - 1;
  g_conc = false;
  if (p.scen == 1) {
    for (size_t i = 0; i < p.ops.size(); ++i) {
      Op o = p.ops[i];
      o.a %= NS; o.b %= NS;
      if (!step(o, (int)i, all, true, 0, NS - 1)) { if (g_rec) g_rec->skipped++; }
    }
  } else {
    for (size_t i = 0; i < p.ops.size(); ++i) {
      Op o = p.ops[i];
      if (o.fiber != FB_SETUP) continue;
      o.a %= NS; o.b %= NS;
      step(o, (int)i, all, true, 0, NS - 1);
    }
    g_conc = true;
    threads_run(fiber_body);
    g_conc = false;
    u32 n = 0;
    for (int i = 0; i < NS; ++i) {
      n += valued(M[i]);
      Op none;
      if (M[i].live) observe_check(i, M[i], false, none, false, true);
    }
    if (obj_live_lib() != n) violate(V_LEAK_OBJ, "after the threads finished: %u live owned objects, handles own %u", obj_live_lib(), n);
    for (size_t i = 0; i < p.ops.size(); ++i) {
      Op o = p.ops[i];
      if (o.fiber != FB_AFTER) continue;
      o.a %= NS; o.b %= NS;
      step(o, (int)i, all, true, 0, NS - 1);
    }
  }
  // Final census: every handle destroyed, nothing left.
  for (int i = 0; i < NS; ++i)
    if (M[i].live) do_dtor(i, (int)p.ops.size(), all, true, 0, NS - 1);
  if (obj_live_total()) violate(V_LEAK_OBJ, "%u owned objects remain at the end", obj_live_total());
  if (mem_live_lib()) violate(V_LEAK_MEM, "%u allocations remain at the end", mem_live_lib());
  mem_check_redzones();
  for (int i = 0; i < NS; ++i) mem_free(77, S[i], 1, C->hsize);
}

static void static_checks() {
  // Advertised non-throwing operations, per configuration.
  for (Reg* r = Reg::head; r; r = r->next) {
    if (!r->c) continue;
    const CfgInfo& c = *r->c;
    bool iae = c.aflags & A_IAE;
    const char* bad = nullptr;
    if (!c.nx.dtor) bad = "destruction";
    else if (!c.nx.valueless || !c.nx.alloc || !c.nx.deref || !c.nx.arrow) bad = "access";
    else if (!c.nx.movector) bad = "move construction";
    else if (iae && !c.nx.amove) bad = "move construction with an allocator that is always equal";
    else if ((iae || (c.aflags & A_POCMA)) && !c.nx.moveassign) bad = "move assignment";
    else if ((iae || (c.aflags & A_POCS)) && (!c.nx.swap || !c.nx.fswap)) bad = "swap";
    if (bad) violate(V_NOEXCEPT, "%s is not advertised as non-throwing in %s", bad, c.name);
  }
}

static void exec_run(const Plan& p) {
  rt_run_begin(p.knobs);
  u64 ops0 = g_rec ? g_rec->ops : 0;
  g_dhash = 0;
  alarm(20);
  run_plan(p);
  alarm(0);
  if (g_rec) {
    g_rec->runs++; g_rec->totalSteps += rt_steps(); g_rec->trace = g_trace; g_rec->steps = rt_steps();
    if (g_rec->ops - ops0 >= 3) set_add(mixk(g_trace, g_cfgkey), &g_rec->nruns, TAG_RUN);
  }
}

// ------------------------------------------------------------ attribution --
static bool direct(int prop, const Record& r, const Plan& p) {
  u8 k = r.opIndex >= 0 && r.opIndex < (int)p.ops.size() ? p.ops[r.opIndex].kind : (u8)O_DTOR;
  if (prop == 13) return true;
  const CfgInfo* c = find_cfg(p.cfg);
  const ScenInfo* s = find_scen(p.cfg);
  return relevant(prop, r.cls, k, r.fired, r.probes[60] || r.probes[61], r.probes[62], c ? c->fam : s ? s->fam : 0);
}
// After minimisation: are the property's own operations necessary for it?
static bool needed(int prop, const Record& r, const Plan& p) {
  if (direct(prop, r, p)) return true;
  bool cf = false, mf = false, vf = false, fault = false;
  for (auto& o : p.ops) {
    cf |= copy_fam(o.kind);
    mf |= move_fam(o.kind);
    vf |= (o.kind >= O_FA_L && o.kind <= O_FA_ALIAS_R);
    fault |= o.fp != P_NONE;
  }
  switch (prop) {
    case 2: return fault;
    case 3: return cf;
    case 4: return mf;
    case 14: return vf && (mem_class(r.cls) || r.cls == V_VALUE || r.cls == V_IDENTITY);
  }
  return false;
}

// ---------------------------------------------------------- child running --
static Record* new_record() {
  void* p = mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Record*)p;
}
static int* g_ndec_shared;
static int* g_ndecisions_shared() { return g_ndec_shared; }
static Record* g_probe;  // record used for candidate evaluation

// Runs plans in sequence in a fresh child.  Returns 0 clean, 1 violation, 2 broken.
static int run_child(const std::vector<Plan>& ps, Record* rec, bool stats) {
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    g_rec = rec;
    rec->valid = 0;
    if (!stats) g_set = nullptr;
    rec->runInBatch = -1;
    rec->opIndex = -1;
    static_checks();
    for (size_t i = 0; i < ps.size(); ++i) {
      rec->runInBatch = (int)i;
      exec_run(ps[i]);
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && rec->valid) return 1;
  if (WIFSIGNALED(st)) {  // the handler itself died (e.g. corrupted stack)
    rec->cls = V_CRASH;
    snprintf(rec->msg, sizeof rec->msg, "killed by signal %d", WTERMSIG(st));
    rec->valid = 1;
    rec->fired = false;
    rec->trace = 0;
    return 1;
  }
  fprintf(stderr, "child ended unexpectedly: status %d\n", st);
  return 2;
}

// ------------------------------------------------------------- minimise ----
struct Target { Cls cls; int prop; u8 opkind; bool anyKind; };
static u8 viol_kind(const Record& r, const std::vector<Plan>& ps) {
  if (r.runInBatch < 0 || r.runInBatch >= (int)ps.size()) return 0;
  const Plan& p = ps[r.runInBatch];
  return r.opIndex >= 0 && r.opIndex < (int)p.ops.size() ? p.ops[r.opIndex].kind : (u8)O_DTOR;
}
static int g_evals;
static double g_mindeadline;
static double now_s() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static bool still(const std::vector<Plan>& ps, const Target& t) {
  if (++g_evals > 1500 || now_s() > g_mindeadline) return false;
  int rc = run_child(ps, g_probe, false);
  if (rc != 1) return false;
  return g_probe->cls == t.cls && viol_kind(*g_probe, ps) == t.opkind;
}
static void fix_schedule(std::vector<Plan>& ps, const Target& t) {
  // Turn the seeded schedule of the violating run into explicit decisions.
  Plan& p = ps.back();
  if (!p.nfib || p.fixedSched) return;
  if (run_child(ps, g_probe, false) != 1) return;
  std::vector<Plan> c = ps;
  c.back().fixedSched = true;
  c.back().sched.assign(g_decisions, g_decisions + *(volatile int*)g_ndecisions_shared());
  if (still(c, t)) ps = c;
}
static void minimise(std::vector<Plan>& ps, const Target& t) {
  g_evals = 0;
  g_mindeadline = now_s() + 60;
  // drop whole runs
  if (ps.size() > 1) {
    std::vector<Plan> c = {ps.back()};
    if (still(c, t)) ps = c;
    else
      for (size_t i = 0; i + 1 < ps.size();) {
        c = ps;
        c.erase(c.begin() + i);
        if (still(c, t)) ps = c; else ++i;
      }
  }
  fix_schedule(ps, t);
  for (int round = 0; round < 3; ++round) {
    bool any = false;
    for (size_t q = 0; q < ps.size(); ++q) {
      // ddmin over operations
      for (size_t chunk = std::max<size_t>(1, ps[q].ops.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < ps[q].ops.size();) {
          std::vector<Plan> c = ps;
          size_t n = std::min(chunk, c[q].ops.size() - i);
          c[q].ops.erase(c[q].ops.begin() + i, c[q].ops.begin() + i + n);
          if (still(c, t)) { ps = c; any = true; } else i += chunk;
        }
        if (chunk == 1) break;
      }
      // faults and arguments
      for (size_t i = 0; i < ps[q].ops.size(); ++i) {
        auto attempt = [&](std::function<void(Op&)> f) {
          std::vector<Plan> c = ps;
          f(c[q].ops[i]);
          if (memcmp(&c[q].ops[i], &ps[q].ops[i], sizeof(Op)) == 0) return;
          if (still(c, t)) { ps = c; any = true; }
        };
        if (ps[q].ops[i].fp != P_NONE) {
          attempt([](Op& o) { o.fp = P_NONE; o.fk = 0; o.fflav = o.flate = o.fsticky = 0; });
          attempt([](Op& o) { o.fk = 1; });
          attempt([](Op& o) { o.fflav = 0; });
          attempt([](Op& o) { o.flate = 0; });
          attempt([](Op& o) { o.fsticky = 0; });
        }
        attempt([](Op& o) { o.ctx = 0; });
        attempt([](Op& o) { o.w = 0; });
        attempt([](Op& o) { if (o.kind != O_CMP && o.kind != O_CMPV && o.kind != O_VCMP) o.flav = 0; });
        attempt([](Op& o) { o.v = 1; });
      }
      // schedule decisions
      for (size_t chunk = std::max<size_t>(1, ps[q].sched.size() / 2); !ps[q].sched.empty() && chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < ps[q].sched.size();) {
          std::vector<Plan> c = ps;
          size_t n = std::min(chunk, c[q].sched.size() - i);
          c[q].sched.erase(c[q].sched.begin() + i, c[q].sched.begin() + i + n);
          if (still(c, t)) { ps = c; any = true; } else i += chunk;
        }
        if (chunk == 1) break;
      }
      std::vector<Plan> c = ps;
      c[q].knobs = 0;
      if (ps[q].knobs && still(c, t)) ps = c;
    }
    if (!any) break;
  }
}

static void write_replay(const char* path, const char* variant, int prop, const std::vector<Plan>& ps, const Record& r) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); exit(3); }
  fprintf(f, "vsim-replay 1\nproperty C%02d\nvariant %s\nseed %llu\n", prop, variant, (unsigned long long)ps.back().seed);
  fprintf(f, "violation %s\noperation %s\nmessage %s\ntrace %016llx\n", cls_name[r.cls], op_name[viol_kind(r, ps)] ? op_name[viol_kind(r, ps)] : "none",
          r.msg, (unsigned long long)r.trace);
  for (auto& p : ps) fputs(plan_text(p).c_str(), f);
  fclose(f);
}
}  // namespace sim

using namespace sim;

static const char* arg(int argc, char** argv, const char* n, const char* d) {
  for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1];
  return d;
}
static std::vector<std::string> names(bool scen) {
  std::vector<std::string> v;
  for (Reg* r = Reg::head; r; r = r->next) {
    if (!scen && r->c) v.push_back(r->c->name);
    if (scen && r->s) v.push_back(r->s->name);
  }
  std::sort(v.begin(), v.end());
  return v;
}
static GenEnv make_env(int prop) {
  GenEnv g;
  g.prop = prop;
  for (auto& n : names(false)) { const CfgInfo* c = find_cfg(n); g.cfgs.push_back(GenCfg{n, c->fam, c->aflags, c->caps, c->ntypes}); }
  for (auto& n : names(true)) { const ScenInfo* c = find_scen(n); g.scens.push_back(GenScen{n, c->scen, c->fam, c->aflags, c->caps}); }
  return g;
}

int main(int argc, char** argv) {
  if (argc < 2) return 3;
  std::string cmd = argv[1];
  int pers = personality(0xffffffff);  // the same addresses in every process, where the system allows it
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSIM_REEXEC") && personality((unsigned)pers | ADDR_NO_RANDOMIZE) != -1) {
    setenv("VSIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  int prop = atoi(arg(argc, argv, "--prop", "0"));
  g_only_prop = prop;
  g_strict_copy = prop == 3;
  rt_init();
  g_ndec_shared = rt_share_decisions();
  g_probe = new_record();
  std::string variant = arg(argc, argv, "--variant", "?");
  if (cmd == "list") {
    for (auto& n : names(false)) printf("%s\n", n.c_str());
    for (auto& n : names(true)) printf("%s\n", n.c_str());
    return 0;
  }
  if (cmd == "plan") {  // print the plan of a seed
    GenEnv g = make_env(prop);
    u64 seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    fputs(plan_text(gen_plan(g, seed)).c_str(), stdout);
    return 0;
  }
  if (cmd == "digest") {  // run the plans of a file, or a range of seeds, printing the observable history
    GenEnv g = make_env(prop);
    std::vector<Plan> ps;
    const char* file = arg(argc, argv, "--plan", "");
    if (*file) {
      FILE* f = fopen(file, "r");
      if (!f || !plan_read(f, ps)) return 3;
      fclose(f);
    } else {
      u64 base = strtoull(arg(argc, argv, "--base", "1"), nullptr, 10);
      u64 first = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10), count = strtoull(arg(argc, argv, "--count", "1"), nullptr, 10);
      for (u64 i = first; i < first + count; ++i) ps.push_back(gen_plan(g, base * 1000003ull + i));
    }
    bool full = *file || strcmp(arg(argc, argv, "--full", "0"), "1") == 0;
    g_digest = true;
    struct Sh { u64 h; u64 ops; };
    Sh* sh = (Sh*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (full) g_digest_f = stdout;
    setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
    g_set = (u64*)mmap(nullptr, SETN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(g_probe, 0, sizeof *g_probe);
    for (auto& p : ps) {
      if (full) printf("RUN %llu %s\n", (unsigned long long)p.seed, p.cfg.c_str());
      fflush(stdout);
      sh->h = 0;
      pid_t pid = fork();
      if (!pid) {
        g_rec = g_probe;
        g_rec->valid = 0;
        exec_run(p);
        sh->h = g_dhash;
        fflush(stdout);
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      const char* v = ok ? "ok" : g_probe->valid ? cls_name[g_probe->cls] : "killed";
      if (full) printf("END %s\n", v);
      else printf("%llu %s %016llx\n", (unsigned long long)p.seed, v, (unsigned long long)sh->h);
    }
    printf("STAT {\"runs\": %llu, \"ops\": %llu, \"skipped\": %llu, \"failed_ops\": %llu, \"steps\": %llu, \"ndistinct\": %llu, \"nruns\": %llu, \"faults\": {", (unsigned long long)g_probe->runs, (unsigned long long)g_probe->ops, (unsigned long long)g_probe->skipped,
           (unsigned long long)g_probe->failedOps, (unsigned long long)g_probe->totalSteps, (unsigned long long)g_probe->ndistinct, (unsigned long long)g_probe->nruns);
    for (int i = 2; i < P_N; ++i) printf("%s\"%s\": %llu", i == 2 ? "" : ", ", point_name[i], (unsigned long long)g_probe->faults[i]);
    printf("}}\n");
    fflush(stdout);
    return 0;
  }
  if (cmd == "replay") {
    FILE* f = fopen(argv[argc - 1], "r");
    std::vector<Plan> ps;
    if (!f || !plan_read(f, ps)) { fprintf(stderr, "unreadable replay file\n"); return 3; }
    fclose(f);
    int rc = run_child(ps, g_probe, false);
    if (rc == 1) {
      printf("REPRODUCED class=%s op=%s run=%d trace=%016llx\n%s\n", cls_name[g_probe->cls], op_name[viol_kind(*g_probe, ps)] ? op_name[viol_kind(*g_probe, ps)] : "none",
             g_probe->runInBatch, (unsigned long long)g_probe->trace, g_probe->msg);
      return 1;
    }
    if (rc == 0) printf("CLEAN trace=%016llx\n", (unsigned long long)g_probe->trace);
    return rc == 0 ? 0 : 3;
  }
  if (cmd == "traces") {  // determinism: print seed and trace hash
    GenEnv g = make_env(prop);
    u64 base = strtoull(arg(argc, argv, "--base", "1"), nullptr, 10);
    u64 first = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10), count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
    for (u64 i = first; i < first + count; ++i) {
      std::vector<Plan> ps = {gen_plan(g, base * 1000003ull + i)};
      int rc = run_child(ps, g_probe, false);
      printf("%llu %d %016llx %llu\n", (unsigned long long)ps[0].seed, rc, (unsigned long long)g_probe->trace, (unsigned long long)g_probe->steps);
    }
    return 0;
  }
  if (cmd != "search") return 3;

  GenEnv g = make_env(prop);
  u64 base = strtoull(arg(argc, argv, "--base", "1"), nullptr, 10);
  u64 nbatch = strtoull(arg(argc, argv, "--batches", "100"), nullptr, 10);
  u64 bsize = strtoull(arg(argc, argv, "--batch", "16"), nullptr, 10);
  u64 workers = strtoull(arg(argc, argv, "--workers", "1"), nullptr, 10), w = strtoull(arg(argc, argv, "--worker", "0"), nullptr, 10);
  double maxsec = atof(arg(argc, argv, "--seconds", "600"));
  const char* out = arg(argc, argv, "--out", "/dev/null");
  const char* replay = arg(argc, argv, "--replay", "/tmp/replay.txt");
  const char* stopf = arg(argc, argv, "--stop", "");
  volatile u64* stop = nullptr;
  if (*stopf) {
    int fd = open(stopf, O_RDWR);
    if (fd >= 0) { void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) stop = (volatile u64*)m; close(fd); }
  }
  Record* rec = new_record();
  g_set = (u64*)mmap(nullptr, SETN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  u64* keepset = g_set;
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int found = 0;
  u64 foundBatch = 0, rejected = 0, done = 0, nondet = 0;
  std::vector<Plan> fin;
  Record finrec;
  memset(&finrec, 0, sizeof finrec);
  for (u64 b = w; b < nbatch; b += workers) {
    if (stop && *stop && b >= *stop - 1) break;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > maxsec) break;
    std::vector<Plan> ps;
    for (u64 i = 0; i < bsize; ++i) ps.push_back(gen_plan(g, base * 1000003ull + b * bsize + i));
    g_set = keepset;
    int rc = run_child(ps, rec, true);
    done++;
    if (rc == 0) continue;
    if (rc == 2) { found = 3; break; }
    rec->valid = 0;
    std::vector<Plan> pre(ps.begin(), ps.begin() + std::max(0, rec->runInBatch) + 1);
    if (rec->runInBatch < 0) pre = {ps[0]};
    Record r0 = *rec;
    bool dir = direct(prop, r0, pre.back());
    if (!dir && rejected >= 12) continue;
    Target t{r0.cls, prop, viol_kind(r0, pre), false};
    int rc1 = run_child(pre, g_probe, false);
    if (rc1 != 1 || g_probe->cls != r0.cls || g_probe->trace != r0.trace) {
      fprintf(stderr, "not repeatable: class %s/%s trace %016llx/%016llx rc %d\n", cls_name[r0.cls], cls_name[g_probe->cls],
              (unsigned long long)r0.trace, (unsigned long long)g_probe->trace, rc1);
      if (++nondet < 8) continue;
      break;
    }
    if (rec->runInBatch >= 0) minimise(pre, t);
    int rc2 = run_child(pre, g_probe, false);
    if (rc2 != 1) { fprintf(stderr, "minimised plan does not reproduce\n"); if (++nondet < 8) continue; break; }
    Record r1 = *g_probe;
    if (!dir && !needed(prop, r1, pre.back())) {
      rejected++;
      fprintf(stderr, "not attributed to C%02d: %s %s\n", prop, cls_name[r1.cls], r1.msg);
      continue;
    }
    fin = pre; finrec = r1;
    found = 1;
    foundBatch = b;
    if (stop) { u64 cur = *stop; if (!cur || b + 1 < cur) *stop = b + 1; }
    break;
  }
  if (!found && nondet) found = 2;
  clock_gettime(CLOCK_MONOTONIC, &t1);
  FILE* f = fopen(out, "w");
  if (!f) return 3;
  fprintf(f, "{\"found\": %d, \"batch\": %llu, \"batches\": %llu, \"rejected\": %llu, \"runs\": %llu, \"ops\": %llu, \"skipped\": %llu, \"failed_ops\": %llu, \"steps\": %llu, \"sched_points\": %llu, \"switches\": %llu, \"wall\": %.3f,",
          found, (unsigned long long)foundBatch, (unsigned long long)done, (unsigned long long)rejected, (unsigned long long)rec->runs, (unsigned long long)rec->ops, (unsigned long long)rec->skipped, (unsigned long long)rec->failedOps,
          (unsigned long long)rec->totalSteps, (unsigned long long)rec->schedPoints, (unsigned long long)rec->switches,
          (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec));
  fprintf(f, "\"faults\": {");
  bool first = true;
  for (int i = 2; i < P_N; ++i) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", point_name[i], (unsigned long long)rec->faults[i]); first = false; }
  fprintf(f, "}, \"opcount\": {");
  first = true;
  for (int i = 0; i < O_MAX; ++i) if (rec->opcount[i]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", op_name[i], (unsigned long long)rec->opcount[i]); first = false; }
  fprintf(f, "}, \"nruns\": %llu, \"ninter\": %llu, \"ndistinct\": %llu", (unsigned long long)rec->nruns, (unsigned long long)rec->ninter, (unsigned long long)rec->ndistinct);
  if (found == 1) fprintf(f, ", \"class\": \"%s\", \"op\": \"%s\", \"ops_min\": %zu", cls_name[finrec.cls], op_name[viol_kind(finrec, fin)] ? op_name[viol_kind(finrec, fin)] : "none", fin.back().ops.size());
  fprintf(f, "}\n");
  fclose(f);
  const char* setout = arg(argc, argv, "--set", "");
  if (*setout) {
    FILE* s = fopen(setout, "wb");
    if (s) {
      for (u32 i = 0; i < SETN; ++i) if (keepset[i]) fwrite(&keepset[i], 8, 1, s);
      fclose(s);
    }
  }
  if (found == 1) write_replay(replay, variant.c_str(), prop, fin, finrec);
  return found == 0 ? 0 : found == 1 ? 1 : 3;
}
