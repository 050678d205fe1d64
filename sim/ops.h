#ifndef SIM_OPS_H
#define SIM_OPS_H
#include "rt.h"
namespace sim {
enum OpK : u8 {
  O_NONE,
  O_DEF, O_A_DEF,
  O_VAL_L, O_VAL_R, O_A_VAL_L, O_A_VAL_R,
  O_KEY_L, O_KEY_R, O_A_KEY_L, O_A_KEY_R,
  O_INPL_L, O_INPL_R, O_A_INPL_L, O_A_INPL_R,
  O_INPL1, O_A_INPL1,
  O_LIST, O_A_LIST,
  O_COPY, O_A_COPY, O_MOVE, O_A_MOVE,
  O_DTOR,
  O_CASSIGN, O_MASSIGN,
  O_FA_L, O_FA_R, O_FA_KL, O_FA_KR, O_FA_ALIAS_L, O_FA_ALIAS_R,
  O_SWAP, O_ROUNDTRIP, O_VAL_ALIAS_L, O_VAL_ALIAS_R, O_MOVE_OUT,
  O_SET, O_GET,
  O_CMP, O_CMPV, O_VCMP, O_XCMP, O_ACMP, O_HASH,
  O_LAST_S1,
  // nested structures (S3) and composites (S4)
  N_FIRST = 60,
  N_PUSH = N_FIRST, N_POP, N_ASSIGN_COPY, N_ASSIGN_MOVE, N_CTOR_COPY, N_CTOR_MOVE, N_SWAP, N_SELF, N_HOLLOW,
  N_SETVAL, N_NEWROOT, N_DROP, N_TEMP_MOVE, N_CMP, N_HASH, N_LAST,
  K_FIRST = 76,
  K_PUSH = K_FIRST, K_EMPLACE, K_INSERT, K_ERASE, K_RESIZE, K_ASSIGN_VEC, K_MOVE_VEC, K_SWAP_VEC, K_SORT, K_ROTATE,
  K_REVERSE, K_UNIQUE, K_MAPSET, K_MAPERASE, K_SETINS, K_AGG_COPY, K_AGG_ASSIGN, K_AGG_MOVE, K_AGG_SWAP,
  K_OPT, K_NEST, K_SELFINS, K_ELEM_ASSIGN, K_ELEM_MOVE, K_ELEM_SWAP, K_CLEAR, K_TUPLE, K_ARRAY, K_PART, K_HOLLOW,
  K_SHARED, K_VV, K_DEQ, K_LST, K_UMAP, K_MSET, K_DFL, K_OPT2, K_SCOPED, K_ALGO, K_LAST,
  O_MAX = 128
};
extern const char* const op_name[O_MAX];

struct Op {
  u8 kind = 0, a = 0, b = 0, ty = 0;
  u8 flav = 0, fiber = 0;
  u16 arena = 1;
  u32 tag = 0;
  i64 v = 0;
  int w = 0;
  // fault
  u8 fp = P_NONE, fflav = 0, flate = 0, fsticky = 0;
  u32 fk = 0;
  u8 ctx = 0;  // 1: during stack unwinding, 2: in an exception handler, 3: both
};

struct Obs {
  bool valueless = false;
  const void* addr = nullptr;
  const void* obj = nullptr;
  u8 type = 0;
  i64 val = 0;
  u32 inst = 0;
  bool moved = false;
  u32 arena = 0, tag = 0;
};
struct Res {
  int cmp = -1;
  u64 hash = 0;
  const void* addrs[6] = {};
  int naddrs = 0;
  bool hasArg = false;
  u32 argInst = 0;
  i64 argVal = 0;
  bool argMoved = false;
  int keyConsumed = -1;
};
enum Caps : u32 {
  C_DEF = 1, C_COPY = 2, C_CASSIGN = 4, C_MASSIGN = 8, C_KCTOR = 16, C_KASSIGN = 32, C_EQ = 64, C_LT = 128,
  C_ALLORD = 256, C_HASH = 512, C_PARTIAL = 1024, C_DECADE = 2048, C_NXMOVE = 4096, C_MOVECOPIES = 8192,
  C_TAGS = 16384, C_CONS = 32768, C_XCMP = 65536, C_ADEF = 1 << 17, C_STDSWAP = 1 << 18, C_3WAY = 1 << 19,
  C_EQX = 1 << 20, C_KEYED = 1 << 21, C_LIST = 1 << 22, C_FA = 1 << 23, C_AFA = 1 << 24, C_WEAK = 1 << 25
};
struct NxTraits { bool movector, moveassign, swap, dtor, valueless, alloc, deref, arrow, fswap, amove; };

struct CfgInfo {
  const char* name;
  int fam;  // 0 indirect, 1 polymorphic
  u32 aflags, caps;
  int ntypes;
  std::size_t hsize, halign;
  NxTraits nx;
  u8 movecopies_mask;  // by type: moving copies
  u8 nxmove_mask;      // by type: move construction cannot fail
  bool masscopies;     // move assignment copies
  const u8* typecode;  // polymorphic: dynamic type codes by index
  bool (*exec)(const Op&, void* a, void* b, Res&);
  void (*observe)(const void* a, Obs&);
};
// What the comparison or the hash gave.
extern u64 g_nest_res[2];
// Recursive structures (S3): executed per operation, modelled in nested.cc.
struct NestInfo {
  std::size_t hsize, halign;
  bool (*exec)(const Op&, void* a, void* b);
  void (*observe)(void* h, Obs&);
  int (*nkids)(void* h);
  void* (*kid)(void* h, int i);
};
// Composites (S4): the configuration's own code runs and checks a whole plan.
struct ScenInfo {
  const char* name;
  int scen;  // 3 or 4
  int fam;
  u32 aflags, caps;
  const NestInfo* nest;
  void (*run)(const Op* ops, int n, u64 knobs);
};
struct Reg {
  CfgInfo* c;
  ScenInfo* s;
  Reg* next;
  static Reg* head;
  Reg(CfgInfo* ci, ScenInfo* si) : c(ci), s(si), next(head) { head = this; }
};
}  // namespace sim
#endif
