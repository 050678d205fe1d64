// Plans: everything that decides a simulated run, as data.
#ifndef SIM_PLAN_H
#define SIM_PLAN_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

#include "ops.h"
namespace sim {
struct Rng {
  u64 s;
  explicit Rng(u64 x) : s(x) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
  bool chance(u32 per1000) { return below(1000) < per1000; }
};
struct Plan {
  int scen = 1;
  std::string cfg;
  u64 seed = 0;
  u64 knobs = 0;
  int nslots = 3;
  int nfib = 0;
  u64 schedSeed = 0;
  u32 switchP = 0;
  bool fixedSched = false;
  std::vector<SchedDecision> sched;
  std::vector<Op> ops;
};
enum : u8 { FB_SETUP = 255, FB_AFTER = 254 };

inline std::string op_text(const Op& o) {
  char b[400];
  snprintf(b, sizeof b, "op %s a=%u b=%u ty=%u flav=%u fiber=%u arena=%u tag=%u v=%lld w=%d", op_name[o.kind], o.a, o.b,
           o.ty, o.flav, o.fiber, o.arena, o.tag, (long long)o.v, o.w);
  std::string s = b;
  if (o.fp != P_NONE) {
    snprintf(b, sizeof b, " fault=%s:%u:%u:%u:%u", point_name[o.fp], o.fk, o.fflav, o.flate, o.fsticky);
    s += b;
  }
  if (o.ctx) { snprintf(b, sizeof b, " during=%u", o.ctx); s += b; }
  return s + "\n";
}
inline std::string plan_text(const Plan& p) {
  char b[400];
  snprintf(b, sizeof b, "run scen=%d cfg=%s seed=%llu knobs=%llu nslots=%d nfib=%d sched=%llu switchp=%u fixed=%d\n", p.scen,
           p.cfg.c_str(), (unsigned long long)p.seed, (unsigned long long)p.knobs, p.nslots, p.nfib,
           (unsigned long long)p.schedSeed, p.switchP, p.fixedSched ? 1 : 0);
  std::string s = b;
  if (p.fixedSched) {
    s += "schedule";
    for (auto& d : p.sched) { snprintf(b, sizeof b, " %u:%u", d.at, d.to); s += b; }
    s += "\n";
  }
  for (auto& o : p.ops) s += op_text(o);
  s += "end\n";
  return s;
}
inline bool plan_read(FILE* f, std::vector<Plan>& out) {
  static char line[1 << 20];
  Plan cur;
  bool in = false;
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "run ", 4)) {
      cur = Plan();
      char cfg[200] = "";
      unsigned long long seed, knobs, ss;
      int fixed = 0;
      if (sscanf(line, "run scen=%d cfg=%199s seed=%llu knobs=%llu nslots=%d nfib=%d sched=%llu switchp=%u fixed=%d",
                 &cur.scen, cfg, &seed, &knobs, &cur.nslots, &cur.nfib, &ss, &cur.switchP, &fixed) != 9)
        return false;
      cur.cfg = cfg; cur.seed = seed; cur.knobs = knobs; cur.schedSeed = ss; cur.fixedSched = fixed;
      in = true;
    } else if (!strncmp(line, "schedule", 8)) {
      char* t = strtok(line + 8, " \n");
      while (t) {
        unsigned at, to;
        if (sscanf(t, "%u:%u", &at, &to) == 2) cur.sched.push_back(SchedDecision{at, (u8)to});
        t = strtok(nullptr, " \n");
      }
    } else if (!strncmp(line, "op ", 3)) {
      char nm[64];
      unsigned a, b, ty, flav, fiber, arena, tag;
      long long v;
      int w, n = 0;
      if (sscanf(line, "op %63s a=%u b=%u ty=%u flav=%u fiber=%u arena=%u tag=%u v=%lld w=%d%n", nm, &a, &b, &ty, &flav,
                 &fiber, &arena, &tag, &v, &w, &n) != 10)
        return false;
      Op o;
      o.kind = 0;
      for (int i = 0; i < O_MAX; ++i) if (op_name[i] && !strcmp(op_name[i], nm)) o.kind = (u8)i;
      if (!o.kind) return false;
      o.a = (u8)a; o.b = (u8)b; o.ty = (u8)ty; o.flav = (u8)flav; o.fiber = (u8)fiber; o.arena = (u16)arena; o.tag = tag;
      o.v = v; o.w = w;
      char pn[32];
      unsigned k, fl, la, st;
      if (sscanf(line + n, " fault=%31[a-z]:%u:%u:%u:%u", pn, &k, &fl, &la, &st) == 5) {
        for (int i = 0; i < P_N; ++i) if (!strcmp(point_name[i], pn)) o.fp = (u8)i;
        o.fk = k; o.fflav = (u8)fl; o.flate = (u8)la; o.fsticky = (u8)st;
      }
      const char* du = strstr(line + n, " during=");
      if (du) o.ctx = (u8)atoi(du + 8);
      cur.ops.push_back(o);
    } else if (!strncmp(line, "end", 3)) {
      if (in) out.push_back(cur);
      in = false;
    }
  }
  return !out.empty();
}
}  // namespace sim
#endif
