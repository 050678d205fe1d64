// Plan generation: everything random about a run, from its seed.
#ifndef SIM_GEN_H
#define SIM_GEN_H
#include <string>
#include <vector>

#include "alloc.h"
#include "plan.h"
namespace sim {
struct GenCfg { std::string name; int fam; u32 aflags, caps; int ntypes; };
struct GenScen { std::string name; int scen, fam; u32 aflags, caps; };
struct GenEnv { int prop; std::vector<GenCfg> cfgs; std::vector<GenScen> scens; };

enum Grp { G_CTOR, G_COPY, G_MOVE, G_CASSIGN, G_MASSIGN, G_FASSIGN, G_SWAP, G_CMP, G_HASH, G_ACCESS, G_DTOR, G_MISC, G_N };

inline i64 pick_value(Rng& r) {
  static const i64 pool[] = {0, -1, 1, 5, 7, 10, 11, 1ll << 40, -(1ll << 40), 12, 19, 25};
  if (r.chance(850)) return pool[r.below(12)];
  return (i64)(r.next() >> 20) - (1ll << 43);
}

inline Op gen_fault(Rng& r, Op o, u32 p, bool first) {
  if (!r.chance(p)) return o;
  if (first) { o.fp = (u8)(r.chance(500) ? P_ANY : P_ALLOC + r.below(P_N - P_ALLOC)); o.fk = 1; }
  else if (r.chance(600)) { o.fp = P_ANY; o.fk = 1 + r.below(4); }
  else { o.fp = (u8)(P_ALLOC + r.below(P_N - P_ALLOC)); o.fk = 1 + r.below(2); }
  o.fflav = (u8)r.below(F_FLN);
  o.flate = r.chance(300);
  o.fsticky = r.chance(200);
  return o;
}

inline u8 pick_kind(Rng& r, int g, const GenCfg& c) {
  auto one = [&](std::initializer_list<int> l) { return (u8) * (l.begin() + r.below((u32)l.size())); };
  switch (g) {
    case G_CTOR:
      if (c.fam == 0 && (c.caps & C_KCTOR))
        return one({O_DEF, O_A_DEF, O_VAL_L, O_VAL_R, O_A_VAL_L, O_A_VAL_R, O_KEY_L, O_KEY_R, O_A_KEY_L, O_A_KEY_R, O_INPL_L, O_INPL_R,
                    O_A_INPL_L, O_A_INPL_R, O_INPL1, O_A_INPL1, O_LIST, O_A_LIST, O_A_VAL_R, O_A_INPL1});
      return one({O_DEF, O_A_DEF, O_VAL_L, O_VAL_R, O_A_VAL_L, O_A_VAL_R, O_INPL_L, O_INPL_R, O_A_INPL_L, O_A_INPL_R, O_INPL1,
                  O_A_INPL1, O_LIST, O_A_LIST, O_A_VAL_R, O_A_INPL1});
    case G_COPY: return one({O_COPY, O_A_COPY});
    case G_MOVE: return one({O_MOVE, O_A_MOVE});
    case G_CASSIGN: return O_CASSIGN;
    case G_MASSIGN: return O_MASSIGN;
    case G_FASSIGN:
      if (c.fam == 1) return one({O_CASSIGN, O_MASSIGN});
      return one({O_FA_L, O_FA_R, O_FA_KL, O_FA_KR, O_FA_ALIAS_L, O_FA_ALIAS_R});
    case G_SWAP: return O_SWAP;
    case G_CMP:
      if (c.fam == 1) return O_GET;
      return one({O_CMP, O_CMP, O_CMP, O_CMPV, O_VCMP, O_XCMP, O_ACMP});
    case G_HASH: return c.fam == 1 ? O_GET : O_HASH;
    case G_ACCESS: return one({O_SET, O_SET, O_GET});
    case G_DTOR: return O_DTOR;
    default: return c.fam == 1 ? one({O_ROUNDTRIP, O_VAL_ALIAS_L}) : one({O_ROUNDTRIP, O_VAL_ALIAS_L, O_VAL_ALIAS_R, O_MOVE_OUT});
  }
}

inline Op gen_op(Rng& r, int g, const GenCfg& c, int nslots, bool oneArena) {
  Op o;
  o.kind = pick_kind(r, g, c);
  o.a = (u8)r.below((u32)nslots);
  o.b = (u8)r.below((u32)nslots);
  if (o.a == o.b && !r.chance(150)) o.b = (u8)((o.a + 1 + r.below((u32)nslots - 1)) % (u32)nslots);
  o.ty = (u8)r.below(14);
  o.arena = (u16)(oneArena ? 1 : 1 + r.below(3));
  o.v = pick_value(r);
  o.w = (int)r.below(4) - 1;
  if (o.kind == O_GET && r.chance(200)) o.ty |= 0x80;
  if (o.kind == O_CMP || o.kind == O_CMPV || o.kind == O_VCMP || o.kind == O_XCMP || o.kind == O_ACMP)
    o.flav = (u8)r.below((c.caps & C_3WAY) ? 7 : 6);
  else o.flav = (u8)r.below(o.kind == O_SET ? 2 : 3);
  return o;
}

struct Swarm {
  u32 w[G_N];
  u32 total = 0;
  Swarm(Rng& r, int prop) {
    static const u32 base[G_N] = {10, 5, 5, 6, 6, 5, 4, 3, 1, 4, 2, 2};
    static const u32 mul[4] = {0, 1, 1, 3};
    for (int i = 0; i < G_N; ++i) w[i] = base[i] * mul[r.below(4)];
    if (w[G_CTOR] < 5) w[G_CTOR] = 5;
    auto min = [&](int g, u32 n) { if (w[g] < n) w[g] = n; };
    switch (prop) {
      case 3: min(G_COPY, 8); min(G_CASSIGN, 10); min(G_ACCESS, 4); break;
      case 4: min(G_MOVE, 8); min(G_MASSIGN, 10); min(G_SWAP, 6); break;
      case 5: min(G_COPY, 6); min(G_MOVE, 6); min(G_CASSIGN, 6); min(G_MASSIGN, 6); min(G_SWAP, 4); break;
      case 6: min(G_MOVE, 10); min(G_MASSIGN, 8); min(G_CASSIGN, 6); min(G_COPY, 4); min(G_FASSIGN, 4); break;
      case 7: min(G_CMP, 30); min(G_HASH, 8); min(G_MOVE, 5); break;
      case 8: min(G_COPY, 10); min(G_CASSIGN, 6); min(G_CMP, 6); min(G_ACCESS, 6); min(G_HASH, 2); break;
      case 9: min(G_MOVE, 8); min(G_MASSIGN, 10); min(G_SWAP, 8); min(G_DTOR, 4); break;
      case 11: min(G_CTOR, 14); min(G_COPY, 6); min(G_CASSIGN, 6); min(G_MASSIGN, 5); break;
      case 12: min(G_CMP, 8); min(G_HASH, 2); break;
      case 14: min(G_CTOR, 14); min(G_FASSIGN, 14); min(G_CASSIGN, 8); min(G_MOVE, 3); break;
    }
    for (u32 x : w) total += x;
  }
  int pick(Rng& r) const {
    u32 x = r.below(total);
    for (int i = 0; i < G_N; ++i) { if (x < w[i]) return i; x -= w[i]; }
    return 0;
  }
};

inline int gen_len(Rng& r) {
  u32 x = r.below(100);
  if (x < 70) return 4 + (int)r.below(11);
  if (x < 95) return 15 + (int)r.below(46);
  if (r.below(40)) return 100 + (int)r.below(201);
  return 600 + (int)r.below(1401);  // a long life: counters, pools and caches fill up
}

Plan gen_nested(const GenEnv& env, Rng& r, u64 seed);
Plan gen_compose(const GenEnv& env, Rng& r, u64 seed);
Plan gen_plain(const GenEnv& env, Rng& r, u64 seed);

inline Plan gen_plain_(const GenEnv& env, Rng& r, u64 seed) {
  Plan p;
  p.scen = 5;
  p.seed = seed;
  std::vector<const GenScen*> ss;
  for (auto& s : env.scens) {
    if (s.scen != 5 || (env.prop == 13 && (s.aflags & A_PMR)) || (env.prop == 7 && s.fam) || (env.prop == 11 && !s.fam)) continue;
    ss.push_back(&s);
  }
  if (ss.empty()) return p;
  const GenScen& s = *ss[r.below((u32)ss.size())];
  p.cfg = s.name;
  p.nslots = 2 + (int)r.below(4);
  p.knobs = (r.chance(400) ? 1 : 0) | (r.chance(500) ? 2 : 0);
  GenCfg c{s.name, s.fam, s.aflags, s.caps, 1};
  bool first = env.prop == 13;
  if (!first && r.chance(500)) p.knobs |= 32;  // NaN in composites (the standard library orders those differently in C++14 and C++20)
  if (first) c.caps &= ~(u32)C_KCTOR;
  static const u32 fps[] = {0, 100, 300, 600};
  u32 fp = fps[r.below(4)];
  bool oneArena = r.chance(400);
  if (env.prop == 5 || env.prop == 9) oneArena = r.chance(200);
  Swarm sw(r, env.prop);
  int n = gen_len(r);
  if (env.prop == 8) {
    p.nfib = 2 + (int)r.below(2);
    p.nslots = 2 + 2 * p.nfib;
    p.schedSeed = r.next();
    static const u32 ps[] = {2, 20, 100, 400};
    p.switchP = ps[r.below(4)];
    n = 4 + (int)r.below(28);
  }
  bool few = r.chance(500);
  for (int i = 0; i < n; ++i) {
    int g = i < p.nslots && r.chance(800) ? (int)G_CTOR : sw.pick(r);
    Op o = gen_op(r, g, c, p.nslots, oneArena);
    if (i < p.nslots && g == G_CTOR) o.a = (u8)i;
    if (few) o.v = (i64)r.below(6);
    if (o.kind == O_CMP && r.chance(200)) o.b = o.a;
    o = gen_fault(r, o, fp, first);
    if (o.fp > P_ACONS) o.fp = r.chance(700) ? P_ALLOC : P_ACONS;
    o.tag = (u32)(i + 1) * 16;
    if (p.nfib) {
      int left = n - i;
      o.fiber = i < p.nslots ? (u8)FB_SETUP : left <= 2 && r.chance(500) ? (u8)FB_AFTER : (u8)r.below((u32)p.nfib);
    }
    p.ops.push_back(o);
  }
  return p;
}

inline Plan gen_plan_(const GenEnv& env, u64 seed) {
  Rng r(seed * 0x9e3779b97f4a7c15ull + 0x51u * (u64)env.prop);
  r.next();
  if (env.prop == 10) return gen_nested(env, r, seed);
  // Ordinary owned types bear on nearly everything.
  static const u8 mixX[] = {0, 12, 12, 25, 20, 20, 20, 35, 25, 12, 0, 25, 20, 15, 20};
  if (env.prop < (int)sizeof mixX && r.below(100) < mixX[env.prop]) return gen_plain(env, r, seed);
  if (env.prop == 12) return gen_compose(env, r, seed);
  // Nested structures and composites also bear on the lifetime, assignment,
  // failure and equivalence properties.
  static const u8 mixN[] = {0, 25, 20, 8, 8, 8, 8, 15, 20, 20, 0, 10, 0, 25, 0}, mixC[] = {0, 15, 15, 0, 0, 8, 0, 0, 0, 15, 0, 0, 0, 20, 0};
  if (env.prop < (int)sizeof mixN && (mixN[env.prop] || mixC[env.prop])) {
    u32 x = r.below(100);
    Plan p;
    if (x < mixN[env.prop]) p = gen_nested(env, r, seed);
    else if (x < (u32)mixN[env.prop] + mixC[env.prop]) p = gen_compose(env, r, seed);
    if (!p.ops.empty()) return p;
  }
  Plan p;
  p.seed = seed;
  std::vector<const GenCfg*> cs;
  for (auto& c : env.cfgs) {
    if (env.prop == 7 && c.fam) continue;
    if (env.prop == 8 && c.name.find("huge") != std::string::npos) continue;  // (the race detector's shadow is sized for small objects)
    if (env.prop == 11 && !c.fam) continue;
    if (env.prop == 13 && (c.aflags & A_FANCY)) continue;
    cs.push_back(&c);
  }
  if (cs.empty()) return p;
  GenCfg c = *cs[r.below((u32)cs.size())];
  if (env.prop == 13) c.caps &= ~(u32)(C_KCTOR | C_3WAY);
  p.cfg = c.name;
  p.knobs = (r.chance(400) ? 1 : 0) | (r.chance(500) ? 2 : 0);
  static const u32 fps[] = {0, 100, 300, 600, 900};
  u32 fp = fps[r.below(5)];
  bool oneArena = r.chance(400);
  if (env.prop == 5 || env.prop == 9) oneArena = r.chance(200);
  Swarm sw(r, env.prop);
  bool first = env.prop == 13;
  if (env.prop == 8) {
    p.scen = 2;
    p.nfib = 2 + (int)r.below(3);
    p.nslots = 2 + 2 * p.nfib;
    p.schedSeed = r.next();
    static const u32 ps[] = {2, 20, 100, 400};
    p.switchP = ps[r.below(4)];
    // set-up: fill the shared slots (sometimes leaving one valueless), and copies of them
    for (int s = 0; s < p.nslots; ++s) {
      Op o;
      if (s >= 2 && r.chance(400)) { o = gen_op(r, G_COPY, c, p.nslots, oneArena); o.b = (u8)r.below(2); o.flav = 0; }
      else o = gen_op(r, G_CTOR, c, p.nslots, oneArena);
      o.a = (u8)s;
      o.fiber = FB_SETUP;
      if (s >= 2 && r.chance(250)) continue;
      p.ops.push_back(o);
    }
    if (r.chance(150)) { Op o = gen_op(r, G_MASSIGN, c, p.nslots, oneArena); o.a = 2; o.b = (u8)r.below(2); o.fiber = FB_SETUP; p.ops.push_back(o); }
    int n = 4 + (int)r.below(24);
    for (int i = 0; i < n; ++i) {
      Op o = gen_fault(r, gen_op(r, sw.pick(r), c, 4, oneArena), fp / 2, first);
      o.fiber = (u8)r.below((u32)p.nfib);
      p.ops.push_back(o);
    }
    n = (int)r.below(4);
    for (int i = 0; i < n; ++i) {
      Op o = gen_op(r, sw.pick(r), c, p.nslots, oneArena);
      o.fiber = FB_AFTER;
      p.ops.push_back(o);
    }
  } else {
    p.nslots = 2 + (int)r.below(4);
    int n = gen_len(r);
    if (c.name.find("huge") != std::string::npos && n > 300) n = 300;
    for (int i = 0; i < n; ++i) {
      int g = i < p.nslots && r.chance(800) ? (int)G_CTOR : sw.pick(r);
      Op o = gen_op(r, g, c, p.nslots, oneArena);
      if (i < p.nslots && g == G_CTOR) o.a = (u8)i;
      p.ops.push_back(gen_fault(r, o, fp, first));
    }
  }
  if (env.prop == 13)  // only what both implementations can express
    for (auto& o : p.ops) {
      bool fk = o.kind == O_FA_KL || o.kind == O_FA_KR;
      if (c.name == "ind-greedy-pocca" && fk) o.kind = O_GET;
      if (c.name == "ind-lessonly" && o.kind == O_VCMP) o.kind = O_CMPV;
      if (c.name == "ind-lessonly" && o.kind >= O_CMP && o.kind <= O_ACMP) o.flav = 2;
    }
  for (size_t i = 0; i < p.ops.size(); ++i) p.ops[i].tag = (u32)(i + 1) * 16;
  return p;
}
// Operations are also executed by destructors during unwinding and by handlers.
inline Plan gen_plan(const GenEnv& env, u64 seed) {
  Plan p = gen_plan_(env, seed);
  Rng r(seed * 0x2545F4914F6CDD1Dull + 0xC7);
  if (!r.chance(200)) return p;
  u32 some = r.chance(500) ? 1000 : 300;
  for (auto& o : p.ops) if (r.chance(some)) o.ctx = (u8)(1 + r.below(3));
  return p;
}
}  // namespace sim
#endif
