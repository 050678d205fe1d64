// Reference model and plan generator for recursive structures (S3).
#include <memory>
#include <string>
#include <vector>

#include "env.h"
#include "gen.h"
#include "record.h"

namespace sim {
u64 g_nest_res[2];
namespace {
struct MN;
struct MH {
  bool vl = true;
  u32 ar = 0, tag = 0;
  std::unique_ptr<MN> n;
};
struct MN {
  i64 val = 0;
  bool moved = false;
  u8 type = 1;
  u32 inst = 0;  // 0: any
  std::vector<MH> kids;
};
enum { NR0 = 4, NRM = 8, MOVED_ = -4242 };
int NR = NR0;  // roots
bool conc;     // threads are running
const ScenInfo* S3;
const NestInfo* I;
bool IAE, resynced;
void* slot[NRM];
bool live[NRM];
MH root[NRM];

MH dup(const MH& h);  // bookkeeping copy, identities included
std::unique_ptr<MN> dupn(const MN& n) {
  std::unique_ptr<MN> r(new MN);
  r->val = n.val; r->moved = n.moved; r->type = n.type; r->inst = n.inst;
  for (auto& k : n.kids) r->kids.push_back(dup(k));
  return r;
}
MH dup(const MH& h) {
  MH r;
  r.vl = h.vl; r.ar = h.ar; r.tag = h.tag;
  if (h.n) r.n = dupn(*h.n);
  return r;
}
// What the library's operations do.
std::vector<MH> copy_kids(const std::vector<MH>& k);
std::unique_ptr<MN> copy_node(const MN& n) {
  std::unique_ptr<MN> r(new MN);
  r->val = n.val; r->moved = n.moved; r->type = n.type;
  r->kids = copy_kids(n.kids);
  return r;
}
MH copy_ctor(const MH& h) {
  MH r;
  r.vl = h.vl;
  if (S3->aflags & A_SOCCC) { r.ar = IAE ? 0 : (u32)AR_SOCCC; r.tag = h.tag + 1; }
  else { r.ar = h.ar; r.tag = h.tag; }
  if (h.n) r.n = copy_node(*h.n);
  return r;
}
std::vector<MH> copy_kids(const std::vector<MH>& k) {
  std::vector<MH> r;
  for (auto& h : k) r.push_back(copy_ctor(h));
  return r;
}
std::vector<MH> move_kids(std::vector<MH>& k) {
  std::vector<MH> r;
  for (auto& h : k) {
    MH m;
    m.vl = h.vl; m.ar = h.ar; m.tag = h.tag; m.n = std::move(h.n);
    h.vl = true; h.n.reset();
    r.push_back(std::move(m));
  }
  return r;
}
void mark_moved(MN& n) { n.val = MOVED_; n.moved = true; }
std::unique_ptr<MN> move_node(MN& n) {
  std::unique_ptr<MN> r(new MN);
  r->val = n.val; r->moved = n.moved; r->type = n.type;
  r->kids = move_kids(n.kids);
  mark_moved(n);
  return r;
}
bool eqa(u32 a, u32 b) { return IAE || a == b; }

int count(const MN* n) {
  if (!n) return 0;
  int c = 1;
  for (auto& k : n->kids) c += count(k.n.get());
  return c;
}
int depth(const MN* n) {
  if (!n) return 0;
  int d = 0;
  for (auto& k : n->kids) d = std::max(d, depth(k.n.get()));
  return d + 1;
}
int census() {
  int n = 0;
  for (int i = 0; i < NR; ++i) if (live[i]) n += count(root[i].n.get());
  return n;
}

struct Loc { int s; std::vector<int> path; MH* m; void* h; };
Loc resolve(int s, u8 code) {
  Loc l{s, {}, &root[s], slot[s]};
  for (int i = 0; i < (code & 3); ++i) {
    if (l.m->vl || l.m->n->kids.empty()) break;
    int k = (code >> (2 + 2 * i) & 3) % (int)l.m->n->kids.size();
    l.path.push_back(k);
    l.h = I->kid(l.h, k);
    l.m = &l.m->n->kids[k];
  }
  return l;
}
enum Rel { SAME, B_IN_A, A_IN_B, APART };
Rel relation(const Loc& a, const Loc& b) {
  if (a.s != b.s) return APART;
  size_t n = std::min(a.path.size(), b.path.size());
  for (size_t i = 0; i < n; ++i) if (a.path[i] != b.path[i]) return APART;
  if (a.path.size() == b.path.size()) return SAME;
  return a.path.size() < b.path.size() ? B_IN_A : A_IN_B;
}

u64 g_seen_nodes;
const char* g_txt;
// Compares a handle, and everything below it, with the model.
void check(void* h, MH& m, bool other, int d) {
  Obs b;
  if (d > 200 || ++g_seen_nodes > 20000) violate(V_HANG, "structure without end [%s]", g_txt);
  I->observe(h, b);
  if (!b.valueless) {
    BlkInfo bi;
    if (!mem_find(b.addr, bi) || (bi.flags & B_HARNESS)) violate(V_DEAD_USE, "owned object is not in allocator storage [%s]", g_txt);
    if (!bi.live) violate(V_UAF, "owned object is in released storage [%s]", g_txt);
    if (!IAE && bi.arena != b.arena) violate(V_WRONG_ARENA, "owned storage belongs to arena %u, handle reports %u [%s]", bi.arena, b.arena, g_txt);
    ObjInfo oi;
    if (!obj_by_inst(b.inst, oi) || !oi.alive) violate(V_DEAD_USE, "owned object is not alive [%s]", g_txt);
    if (oi.obj != b.obj) violate(V_RELOCATION, "owned object moved bytewise [%s]", g_txt);
  }
  if (b.arena != m.ar) mismatch(V_ALLOCATOR, other, "a handle at depth %d reports arena %u, expected %u [%s]", d, b.arena, m.ar, g_txt);
  if (b.tag != m.tag) mismatch(V_ALLOC_TAG, other, "a handle at depth %d reports allocator identity %u, expected %u [%s]", d, b.tag, m.tag, g_txt);
  if (b.valueless != m.vl)
    mismatch(V_VALUELESS, other, "a handle at depth %d is %s, expected %s [%s]", d, b.valueless ? "valueless" : "not valueless", m.vl ? "valueless" : "not valueless", g_txt);
  bool same = !b.valueless && !m.vl;
  if (same) {
    if (b.type != m.n->type) mismatch(V_TYPE, other, "a handle at depth %d owns dynamic type %u, expected %u [%s]", d, b.type, m.n->type, g_txt);
    if (b.val != m.n->val || b.moved != m.n->moved)
      mismatch(V_VALUE, other, "a handle at depth %d holds %lld, expected %lld [%s]", d, (long long)b.val, (long long)m.n->val, g_txt);
    if (m.n->inst && m.n->inst != b.inst) mismatch(V_IDENTITY, other, "the owned object at depth %d was replaced [%s]", d, g_txt);
    int nk = I->nkids(h);
    if (nk != (int)m.n->kids.size()) mismatch(V_VALUE, other, "an object at depth %d has %d parts, expected %d [%s]", d, nk, (int)m.n->kids.size(), g_txt);
  }
  // take over what was observed
  m.ar = b.arena; m.tag = b.tag; m.vl = b.valueless;
  if (b.valueless) { m.n.reset(); return; }
  if (!m.n) m.n.reset(new MN);
  m.n->inst = b.inst; m.n->val = b.val; m.n->moved = b.moved; m.n->type = b.type;
  int nk = I->nkids(h);
  while ((int)m.n->kids.size() > nk) m.n->kids.pop_back();
  while ((int)m.n->kids.size() < nk) m.n->kids.push_back(MH());
  for (int i = 0; i < nk; ++i) check(I->kid(h, i), m.n->kids[i], other, d + 1);
}

void show(const MH& h, std::string& s) {
  char b[80];
  snprintf(b, sizeof b, "%u/%u", h.ar, h.tag);
  s += b;
  if (h.vl) { s += "-"; return; }
  snprintf(b, sizeof b, ":%u:%lld", h.n->type, (long long)h.n->val);
  s += b;
  s += "(";
  for (auto& k : h.n->kids) { show(k, s); s += " "; }
  s += ")";
}

void forget(MN* n) { if (n) { n->inst = 0; } }

// Orders structures as their nodes do; valueless first.
int order(const MH& a, const MH& b) {
  if (a.vl || b.vl) return a.vl && b.vl ? 0 : a.vl ? -1 : 1;
  if (a.n->val != b.n->val) return a.n->val < b.n->val ? -1 : 1;
  for (size_t i = 0; i < a.n->kids.size() && i < b.n->kids.size(); ++i)
    if (int c = order(a.n->kids[i], b.n->kids[i])) return c;
  return a.n->kids.size() < b.n->kids.size() ? -1 : a.n->kids.size() > b.n->kids.size();
}
bool full(const MH& a) {
  if (a.vl) return false;
  for (auto& k : a.n->kids) if (!full(k)) return false;
  return true;
}
u64 hash_of(const MH& a) {
  u64 h = ((17ull ^ (u64)a.n->val) * 0x9E3779B97F4A7C15ull) + 0x632BE59BD9B4E019ull;
  for (auto& k : a.n->kids) h = ((h ^ hash_of(k)) * 0x9E3779B97F4A7C15ull) + 0x632BE59BD9B4E019ull;
  return h;
}

// vis: the slots this thread may look at.
bool step(const Op& op0, int idx, u32 vis = ~0u) {
  Op o = op0;
  if (o.kind < N_FIRST || o.kind >= N_LAST) return false;
  if (IAE) o.arena = 0;
  int sa = o.a % NR, sb = o.b % NR;
  std::string txt = op_text(o);
  if (!txt.empty()) txt.pop_back();
  g_txt = txt.c_str();
  bool ctor = o.kind == N_NEWROOT || o.kind == N_CTOR_COPY || o.kind == N_CTOR_MOVE;
  bool ub = o.kind == N_ASSIGN_COPY || o.kind == N_ASSIGN_MOVE || o.kind == N_CTOR_COPY || o.kind == N_CTOR_MOVE || o.kind == N_SWAP || o.kind == N_TEMP_MOVE || o.kind == N_CMP || o.kind == N_HASH;
  if ((o.kind == N_CMP || o.kind == N_HASH) && S3->fam) return false;
  if (ub && !live[sb]) return false;
  if (!ctor && !live[sa]) return false;
  if (ctor && ub && sa == sb) return false;
  if (ctor && live[sa]) {
    Op d;
    d.kind = N_DROP; d.a = (u8)sa;
    step(d, idx, vis);
    g_txt = txt.c_str();
  }
  Loc A{sa, {}, &root[sa], slot[sa]}, B{sb, {}, &root[sb], slot[sb]};
  if (!ctor && o.kind != N_DROP) A = resolve(sa, o.ty);
  if (ub) B = resolve(sb, o.fiber);
  Rel rel = ub && !ctor ? relation(A, B) : APART;
  bool byval = o.flav == 2 && (o.kind == N_ASSIGN_COPY || o.kind == N_ASSIGN_MOVE);
  if (byval && (S3->fam || B.m->vl || rel == SAME)) { o.flav = 0; byval = false; }
  bool noarm = false;
  switch (o.kind) {
    case N_PUSH: if (A.m->vl || A.m->n->kids.size() >= 3 || A.path.size() > 8) return false; break;
    case N_POP: if (A.m->vl || A.m->n->kids.empty()) return false; break;
    case N_SETVAL: if (A.m->vl) return false; break;
    case N_ASSIGN_COPY:
      if (count(B.m->n.get()) + census() > 80) return false;
      if (A.path.size() + depth(B.m->n.get()) > 12) return false;
      break;
    case N_CTOR_COPY: if (count(B.m->n.get()) + census() > 80) return false; break;
    case N_ASSIGN_MOVE: case N_TEMP_MOVE:
      if (rel == A_IN_B) return false;  // an object cannot be moved into its own part
      if (A.path.size() + depth(B.m->n.get()) > 12) return false;
      // known finding K1: declared non-throwing, yet allocates
      noarm = o.kind == N_TEMP_MOVE  // two steps: the first is not undone
              || !byval && (S3->aflags & A_POCMA) && !eqa(A.m->ar, B.m->ar);
      break;
    case N_SWAP:
      if (rel == B_IN_A || rel == A_IN_B) return false;
      if (rel != SAME && !(S3->aflags & A_POCS) && !eqa(A.m->ar, B.m->ar)) return false;
      if (A.path.size() + depth(B.m->n.get()) > 12 || B.path.size() + depth(A.m->n.get()) > 12) return false;
      break;
  }
  if (o.kind == N_CMP) {
    o.flav %= 6;
    o.w &= 3;
    if ((o.w == 1 && B.m->vl) || (o.w == 2 && A.m->vl) || o.w == 3) o.w = 0;
  } else {
    o.w &= 1;
  }
  const u32 mine = conc ? vis & ~3u : vis;  // others hold on to the model of the shared structures
  MH before[NRM];
  for (int i = 0; i < NR; ++i) if (live[i] && (mine >> i & 1)) before[i] = dup(root[i]);
  bool wasLive = live[sa];
  u32 liveMem = mem_live_lib(), liveObj = obj_live_lib();
  u64 liveBytes = mem_live_bytes_lib();
  u64 key = (u64)rel + 4 * A.m->vl + 8 * (ub && B.m->vl) + 16 * A.path.size() + 64 * B.path.size() + 256 * (ub && eqa(A.m->ar, B.m->ar));
  if (g_rec) { g_rec->probes[60] = live[sa] && A.m->vl; g_rec->probes[61] = ub && B.m->vl; }

  int failed = guarded(o, idx, !noarm, [&] { I->exec(o, A.h, ub ? B.h : nullptr); });

  g_txt = txt.c_str();
  // ---- the model ----------------------------------------------------------
  i64 srcVal = ub && B.m->n ? B.m->n->val : 0;
  bool srcMoved = ub && B.m->n && B.m->n->moved;
  if (!failed) {
    bool fuzzy = false;
    switch (o.kind) {
      case N_NEWROOT: case N_PUSH: {
        MH h;
        h.vl = false; h.ar = o.arena; h.tag = o.tag;
        h.n.reset(new MN);
        h.n->val = o.v; h.n->type = S3->fam ? 1 + (o.w & 1) : 1;
        if (o.kind == N_NEWROOT) { root[sa] = std::move(h); live[sa] = true; }
        else A.m->n->kids.push_back(std::move(h));
        break;
      }
      case N_POP: A.m->n->kids.pop_back(); break;
      case N_SETVAL: A.m->n->val = o.v; A.m->n->moved = false; break;
      case N_DROP: root[sa] = MH(); live[sa] = false; break;
      case N_HOLLOW: A.m->vl = true; A.m->n.reset(); break;
      case N_ASSIGN_COPY: {
        if (rel == SAME && !byval) break;
        u32 ar = B.m->ar, tg = B.m->tag;
        if (B.m->vl) { A.m->vl = true; A.m->n.reset(); }
        else if (S3->fam == 0 && !A.m->vl && (byval || eqa(A.m->ar, B.m->ar))) {
          std::vector<MH> k = copy_kids(B.m->n->kids);
          A.m->n->val = srcVal; A.m->n->moved = srcMoved;
          A.m->n->kids = std::move(k);
        } else {
          std::unique_ptr<MN> n = copy_node(*B.m->n);
          A.m->n = std::move(n);
          A.m->vl = false;
        }
        if (!byval && (S3->aflags & A_POCCA)) { A.m->ar = ar; A.m->tag = tg; }
        break;
      }
      case N_ASSIGN_MOVE: case N_TEMP_MOVE: {
        if (rel == SAME) break;
        u32 ar = B.m->ar, tg = B.m->tag;
        bool gone = rel == B_IN_A;
        if (byval) {
          std::vector<MH> k = move_kids(B.m->n->kids);
          mark_moved(*B.m->n);
          if (A.m->vl) { A.m->n.reset(new MN); A.m->n->type = 1; A.m->vl = false; }
          A.m->n->val = srcVal; A.m->n->moved = srcMoved;
          A.m->n->kids = std::move(k);
        } else {
          if (B.m->vl) { A.m->vl = true; A.m->n.reset(); }
          else if (eqa(A.m->ar, B.m->ar) || o.kind == N_TEMP_MOVE) {
            std::unique_ptr<MN> n = std::move(B.m->n);
            B.m->vl = true;
            if (!eqa(A.m->ar, B.m->ar)) n = move_node(*n);
            forget(n.get());
            A.m->n = std::move(n);
            A.m->vl = false;
          } else {
            std::unique_ptr<MN> n = move_node(*B.m->n);
            A.m->n = std::move(n);
            A.m->vl = false;
            fuzzy = !gone;
          }
          if (S3->aflags & A_POCMA) { A.m->ar = ar; A.m->tag = tg; }
        }
        break;
      }
      case N_CTOR_COPY:
        root[sa] = copy_ctor(*B.m);
        if (o.flav) { root[sa].ar = o.arena; root[sa].tag = o.tag; }
        live[sa] = true;
        break;
      case N_CTOR_MOVE: {
        MH h;
        h.ar = o.flav ? o.arena : B.m->ar; h.tag = o.flav ? o.tag : B.m->tag;
        if (!B.m->vl) {
          h.vl = false;
          if (eqa(h.ar, B.m->ar)) { h.n = std::move(B.m->n); B.m->vl = true; forget(h.n.get()); }
          else { h.n = move_node(*B.m->n); fuzzy = true; }
        }
        root[sa] = std::move(h);
        live[sa] = true;
        break;
      }
      case N_SWAP:
        if (rel == SAME) break;
        std::swap(A.m->n, B.m->n);
        std::swap(A.m->vl, B.m->vl);
        if (S3->aflags & A_POCS) { std::swap(A.m->ar, B.m->ar); std::swap(A.m->tag, B.m->tag); }
        break;
    }
    if (o.kind == N_CMP) {
      int c = order(*A.m, *B.m);
      bool want = o.flav == 0 ? c == 0 : o.flav == 1 ? c != 0 : o.flav == 2 ? c < 0 : o.flav == 3 ? c > 0 : o.flav == 4 ? c <= 0 : c >= 0;
      if ((bool)g_nest_res[0] != want) mismatch(V_COMPARE, false, "comparison of structures gave %d, expected %d [%s]", (int)g_nest_res[0], want, g_txt);
    }
    if (o.kind == N_HASH) {
      if (order(*A.m, *B.m) == 0 && g_nest_res[0] != g_nest_res[1]) mismatch(V_HASH, false, "equal structures hash differently [%s]", g_txt);
      if ((full(*A.m) && g_nest_res[0] != hash_of(*A.m)) || (full(*B.m) && g_nest_res[1] != hash_of(*B.m))) mismatch(V_HASH, false, "hash differs from that of the owned value [%s]", g_txt);
    }
    if (fuzzy) {  // moved between unequal allocators: valueless or moved-from
      Obs b;
      I->observe(B.h, b);
      if (b.valueless) { B.m->vl = true; B.m->n.reset(); }
    }
  } else {
    for (int i = 0; i < NR; ++i) if (live[i] && (mine >> i & 1)) root[i] = std::move(before[i]);
    if (ctor && wasLive) live[sa] = false;
    // the owned type's own failed assignment may have changed its object
    if (cx->firedLate && cx->firedPoint == P_CASSIGN && o.kind == N_ASSIGN_COPY && S3->fam == 0) {
      Loc a2 = resolve(sa, o.ty);
      if (!a2.m->vl) { a2.m->n->val = srcVal; a2.m->n->moved = srcMoved; }
    }
  }
  g_seen_nodes = 0;
  for (int i = 0; i < NR; ++i)
    if (live[i] && (vis >> i & 1)) check(slot[i], root[i], i != sa && !(ub && i == sb), 0);
  if (conc) {
    if (idx >= 0) stat_op(o, failed, key * 31 + S3->aflags * 2 + (u64)S3->fam + 0x5340);
    return true;
  }
  u32 n = (u32)census();
  if (obj_live_lib() != n) violate(obj_live_lib() > n ? V_LEAK_OBJ : V_DEAD_USE, "%u live owned objects, the structures hold %u [%s]", obj_live_lib(), n, g_txt);
  if (n == 0 && mem_live_lib()) violate(V_LEAK_MEM, "%u allocations remain, nothing is owned [%s]", mem_live_lib(), g_txt);
  if (failed && (mem_live_lib() != liveMem || mem_live_bytes_lib() != liveBytes || obj_live_lib() != liveObj))
    mismatch(mem_live_lib() > liveMem ? V_LEAK_MEM : V_DOUBLE_FREE, false, "failed operation changed the live allocations from %u to %u [%s]", liveMem, mem_live_lib(), g_txt);
  if (idx >= 0) stat_op(o, failed, key * 31 + S3->aflags * 2 + (u64)S3->fam + 0x5300);
  if (g_digest && idx >= 0) {
    std::string s;
    char b[160];
    snprintf(b, sizeof b, "%d %s %s exc=%s made=%u gone=%u mem=%u/%u", idx, op_name[o.kind], failed ? "failed" : "ok", failed ? point_name[cx->firedPoint] : "-",
             cx->births, cx->deaths, cx->allocs, cx->deallocs);
    s = b;
    if (o.kind == N_CMP && !failed) s += g_nest_res[0] ? " true" : " false";
    for (int i = 0; i < NR; ++i) { s += " |"; if (live[i]) show(root[i], s); }
    s += "\n";
    digest_line(s.c_str());
  }
  return true;
}
}  // namespace

static const Op* g_nops;
static int g_nnops;
// Two structures are shared by all threads, which only read them; two belong to each.
static void nest_fiber(int f) {
  for (int i = 0; i < g_nnops; ++i) {
    Op o = g_nops[i];
    if (o.w >> 4 != f + 1) continue;
    auto own = [&](u8 s) { return (u8)(2 + 2 * f + (s & 1)); };
    auto any = [&](u8 s) { return (s & 2) ? own(s) : (u8)(s & 1); };
    o.w &= 15;
    switch (o.kind) {
      case N_ASSIGN_COPY: case N_CTOR_COPY:
        o.a = own(o.a); o.b = any(o.b);
        if (o.b < 2 && o.kind == N_ASSIGN_COPY) o.flav = 0;
        break;
      case N_CMP: case N_HASH: o.a = any(o.a); o.b = any(o.b); break;
      default: o.a = own(o.a); o.b = own(o.b);
    }
    if (!step(o, i, 3u | (3u << (2 + 2 * f))) && g_rec) g_rec->skipped++;
  }
}

void nest_run(const ScenInfo& s, const Op* ops, int n, u64) {
  S3 = &s;
  I = s.nest;
  IAE = s.aflags & A_IAE;
  bool threads = threaded(3);
  NR = threads ? NRM : NR0;
  conc = false;
  g_nops = ops; g_nnops = n;
  for (int i = 0; i < NR; ++i) {
    live[i] = false;
    root[i] = MH();
    slot[i] = mem_alloc(77, 0, I->hsize, 1, I->halign, B_HARNESS, I->hsize);
  }
  for (int i = 0; i < n; ++i)
    if (!threads || ops[i].w >> 4 == 0)
      if (!step(ops[i], i) && g_rec) g_rec->skipped++;
  if (threads) {
    conc = true;
    threads_run(nest_fiber);
    conc = false;
    g_txt = "after the threads finished";
    g_seen_nodes = 0;
    for (int i = 0; i < NR; ++i) if (live[i]) check(slot[i], root[i], true, 0);
    if ((int)obj_live_lib() != census()) violate(V_LEAK_OBJ, "after the threads finished: %u live owned objects, the structures hold %d", obj_live_lib(), census());
  }
  for (int i = 0; i < NR; ++i)
    if (live[i]) {
      Op d;
      d.kind = N_DROP; d.a = (u8)i;
      step(d, n);
    }
  if (obj_live_total()) violate(V_LEAK_OBJ, "%u owned objects remain at the end", obj_live_total());
  if (mem_live_lib()) violate(V_LEAK_MEM, "%u allocations remain at the end", mem_live_lib());
  mem_check_redzones();
  for (int i = 0; i < NR; ++i) mem_free(77, slot[i], 1, I->hsize);
}

Plan gen_nested(const GenEnv& env, Rng& r, u64 seed) {
  Plan p;
  p.scen = 3;
  p.seed = seed;
  std::vector<const GenScen*> ss;
  for (auto& s : env.scens) if (s.scen == 3 && !(s.fam && env.prop == 7) && !(!s.fam && env.prop == 11)) ss.push_back(&s);
  if (ss.empty()) return p;
  const GenScen& s = *ss[r.below((u32)ss.size())];
  p.cfg = s.name;
  p.nslots = NR0;
  bool thr = env.prop == 8;
  const int NR = thr ? NRM : NR0;
  p.knobs = (r.chance(400) ? 1 : 0) | (r.chance(500) ? 2 : 0);
  static const u32 fps[] = {0, 100, 300, 600};
  u32 fp = fps[r.below(4)];
  bool oneArena = r.chance(400);
  bool first = env.prop == 13;
  static const u8 kinds[] = {N_NEWROOT, N_PUSH, N_POP, N_ASSIGN_COPY, N_ASSIGN_MOVE, N_CTOR_COPY, N_CTOR_MOVE, N_SWAP, N_HOLLOW, N_SETVAL, N_DROP, N_TEMP_MOVE, N_CMP, N_HASH};
  static const u32 base[] = {3, 18, 3, 16, 20, 3, 4, 5, 5, 3, 1, 5, 6, 2};
  enum { NK = 14 };
  u32 w[NK], tot = 0;
  for (int i = 0; i < NK; ++i) { static const u32 mul[4] = {0, 1, 1, 3}; w[i] = base[i] * mul[r.below(4)]; }
  if (w[1] < 10) w[1] = 10;
  if (w[3] + w[4] < 16) { w[3] += 8; w[4] += 8; }
  if (s.fam) w[12] = w[13] = 0;
  if (env.prop == 7) { w[12] = 40; w[13] = 10; }
  for (u32 x : w) tot += x;
  int n = 4 + (int)(r.chance(80) ? r.below(120) : r.below(26));
  int roots = thr ? 2 + (int)r.below(2) : 1 + (int)r.below(NR);
  int setup = roots + 3 + (int)r.below(8);
  if (thr) {
    p.nfib = 2 + (int)r.below(2);
    p.schedSeed = r.next();
    static const u32 ps[] = {2, 20, 100, 400};
    p.switchP = ps[r.below(4)];
    n = setup + 3 + (int)r.below(20);
  }
  for (int i = 0; i < n; ++i) {
    Op o;
    if (i < roots) { o.kind = N_NEWROOT; o.a = (u8)i; }
    else if (i < roots + 4 && r.chance(700)) { o.kind = N_PUSH; o.a = (u8)r.below((u32)roots); }
    else {
      u32 x = r.below(tot);
      int k = 0;
      while (x >= w[k]) x -= w[k++];
      o.kind = kinds[k];
      o.a = (u8)r.below((u32)(r.chance(850) ? roots : NR));
    }
    o.b = r.chance(650) ? o.a : (u8)r.below(NR);
    o.ty = (u8)(r.next() & 0xff);
    if (r.chance(400)) o.ty &= (u8)~3;  // at the root
    o.fiber = (u8)(r.next() & 0xff);
    if (o.a == o.b && r.chance(600)) {  // from a part of what a owns
      u8 la = (u8)r.below(3), lb = (u8)(la + 1 + r.below(3u - la));
      o.fiber = (u8)((o.fiber & ~3) | lb);
      o.ty = (u8)((o.fiber & ~3) | la);
    }
    o.flav = (u8)r.below(3);
    if (o.kind == N_ASSIGN_MOVE && r.chance(500)) o.flav = 0;
    o.w = (int)r.below(o.kind == N_CMP ? 4 : 2);
    if (o.kind == N_CMP) o.flav = (u8)r.below(6);
    o.v = pick_value(r);
    o.arena = (u16)(oneArena ? 1 : 1 + r.below(3));
    if (i >= roots) o = gen_fault(r, o, fp, first);
    if (!first && o.fp != P_NONE && r.chance(500)) o.fk = 1 + r.below(12);  // deep inside a large copy
    if (thr) {
      if (i < roots) ;
      else if (i < setup) {
        if (r.chance(600)) { o.kind = N_PUSH; o.a = (u8)r.below(2); }
        else { o.kind = N_CTOR_COPY; o.a = (u8)(2 + r.below(6)); o.b = (u8)r.below(2); o.fiber = 0; o.flav = (u8)r.below(2); }
        if (o.w > 1) o.w = 0;
        o.fp = P_NONE; o.fk = 0; o.fflav = o.flate = o.fsticky = 0;
      } else {
        o.a = (u8)r.below(4);
        o.b = (u8)r.below(4);
        o.w |= (int)(1 + r.below((u32)p.nfib)) << 4;
      }
    }
    o.tag = (u32)(i + 1) * 16;
    p.ops.push_back(o);
  }
  return p;
}
}  // namespace sim
