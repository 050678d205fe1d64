// Plan generator for composites (S4).
#include <string>
#include <vector>

#include "gen.h"

namespace sim {
static int g_inner_live = 0;
void inner_live(int d) { g_inner_live = d ? g_inner_live + d : 0; }
int inner_left() { return g_inner_live; }
bool g_nan = false;
Plan gen_plain(const GenEnv& env, Rng& r, u64 seed) { return gen_plain_(env, r, seed); }
Plan gen_compose(const GenEnv& env, Rng& r, u64 seed) {
  Plan p;
  p.scen = 4;
  p.seed = seed;
  std::vector<const GenScen*> ss;
  for (auto& s : env.scens) if (s.scen == 4) ss.push_back(&s);
  if (ss.empty()) return p;
  const GenScen& s = *ss[r.below((u32)ss.size())];
  p.cfg = s.name;
  p.knobs = (r.chance(400) ? 1 : 0) | (r.chance(500) ? 2 : 0);
  // Swapping handles with unequal allocators that do not propagate is not
  // allowed, and containers swap: one arena unless the allocator propagates.
  bool multi = (s.aflags & A_POCS) && r.chance(500);
  if (multi) p.knobs |= 16;
  static const u32 fps[] = {0, 60, 200, 500};
  u32 fp = fps[r.below(4)];
  bool first = env.prop == 13;
  if (multi && (s.aflags & A_POCMA)) fp = 0;  // a failing move assignment ends the program (known finding K1)
  struct { u8 kind; u32 w; } ks[] = {
      {K_PUSH, 10}, {K_EMPLACE, 6}, {K_INSERT, 6}, {K_ERASE, 4}, {K_RESIZE, 3}, {K_ASSIGN_VEC, 4}, {K_MOVE_VEC, 2}, {K_SWAP_VEC, 2},
      {K_SORT, 6}, {K_ROTATE, 3}, {K_REVERSE, 2}, {K_UNIQUE, 3}, {K_MAPSET, 6}, {K_MAPERASE, 2}, {K_SETINS, 8}, {K_AGG_COPY, 3},
      {K_AGG_ASSIGN, 4}, {K_AGG_MOVE, 3}, {K_AGG_SWAP, 2}, {K_OPT, 5}, {K_NEST, 8}, {K_SELFINS, 3}, {K_ELEM_ASSIGN, 6},
      {K_ELEM_MOVE, 5}, {K_ELEM_SWAP, 4}, {K_CLEAR, 1}, {K_TUPLE, 4}, {K_ARRAY, 4}, {K_PART, 4}, {K_HOLLOW, 2}, {K_SHARED, 4}, {K_VV, 4},
      {K_DEQ, 8}, {K_LST, 9}, {K_UMAP, 5}, {K_MSET, 5}, {K_DFL, 6}, {K_OPT2, 4}, {K_SCOPED, 10}, {K_ALGO, 6}};
  u32 tot = 0;
  for (auto& k : ks) { static const u32 mul[4] = {0, 1, 1, 3}; k.w *= mul[r.below(4)]; }
  if (ks[0].w < 8) ks[0].w = 8;
  if (first) for (auto& k : ks) if (k.kind == K_OPT || k.kind == K_OPT2 || k.kind == K_ALGO || (k.kind == K_UMAP)) k.w = 0;
  for (auto& k : ks) tot += k.w;
  int n = 6 + (int)(r.chance(100) ? r.below(100) : r.below(36));
  for (int i = 0; i < n; ++i) {
    Op o;
    if (i < 4) o.kind = r.chance(700) ? K_PUSH : K_EMPLACE;
    else {
      u32 x = r.below(tot);
      int k = 0;
      while (x >= ks[k].w) x -= ks[k++].w;
      o.kind = ks[k].kind;
    }
    o.a = (u8)r.below(2);
    o.b = (u8)r.below(2);
    o.ty = (u8)r.below(3);
    static const u8 nf[][2] = {{K_NEST, 7}, {K_OPT, 7}, {K_SETINS, 6}, {K_SHARED, 5}, {K_TUPLE, 4}, {K_ARRAY, 4}, {K_VV, 4}, {K_RESIZE, 2},
                               {K_PUSH, 2}, {K_SELFINS, 2}, {K_ERASE, 2}, {K_ASSIGN_VEC, 2}, {K_MAPSET, 2},
                               {K_DEQ, 9}, {K_LST, 12}, {K_UMAP, 6}, {K_MSET, 6}, {K_DFL, 7}, {K_OPT2, 6}, {K_SCOPED, 13}, {K_ALGO, 10}};
    u32 fl = 3;
    for (auto& f : nf) if (f[0] == o.kind) fl = f[1];
    o.flav = (u8)r.below(fl);
    o.arena = (u16)(multi ? 1 + r.below(3) : 1);
    o.v = pick_value(r);
    if (r.chance(500)) o.v = (i64)r.below(12);
    o.w = (int)r.below(16);
    if (o.kind == K_MAPSET || o.kind == K_MAPERASE) o.w %= 6;
    o = gen_fault(r, o, fp, first);
    if (!first && o.fp != P_NONE && r.chance(500)) o.fk = 1 + r.below(16);
    o.tag = (u32)(i + 1) * 16;
    p.ops.push_back(o);
  }
  return p;
}
}  // namespace sim
