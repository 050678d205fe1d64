// One configuration per compilation (-DCFG=n).
#include "cfg.h"
#if CFG >= 16 && CFG <= 19
#include "nested.h"
#endif
#if CFG >= 20 && CFG <= 27
#include "compose.h"
#endif
#if CFG >= 30
#include "plain.h"
#endif
namespace sim {
#define SA(T, F) SimAlloc<T, F>
#define ALLT DSmall, DBig, DMulti, DVirt, DTwo, DHost, DCopyOnly
constexpr u32 ALLP = A_POCCA | A_POCMA | A_POCS;
#define COMMA ,
#if CFG == 0
CFG_I(i0, "ind-basic", Basic, SimAlloc<Basic COMMA 0>, true)
#elif CFG == 1
CFG_I(i1, "ind-basic-pocca", Basic, SimAlloc<Basic COMMA A_POCCA>, false)
CFG_I(i2, "ind-basic-pocma", Basic, SimAlloc<Basic COMMA A_POCMA>, false)
#elif CFG == 2
CFG_I(i3, "ind-basic-pocs", Basic, SimAlloc<Basic COMMA A_POCS>, false)
CFG_I(i4, "ind-basic-allp", Basic, SimAlloc<Basic COMMA ALLP>, false)
#elif CFG == 3
CFG_I(i5, "ind-basic-iae", Basic, SimAlloc<Basic COMMA A_IAE>, false)
CFG_I(i6, "ind-basic-iae-allp-soccc", Basic, SimAlloc<Basic COMMA A_IAE | ALLP | A_SOCCC>, false)
#elif CFG == 4
CFG_I(i7, "ind-nxmove-soccc-pocma-nodef", NxMove, SimAlloc<NxMove COMMA A_SOCCC | A_POCMA | A_NODEF>, true)
CFG_I(i8, "ind-big-pocca-pocma", Big, SimAlloc<Big COMMA A_POCCA | A_POCMA>, false)
#elif CFG == 5
CFG_I(i24, "ind-huge-allp", Huge, SimAlloc<Huge COMMA ALLP>, false)
CFG_I(i9, "ind-hostile-pocs", Hostile, SimAlloc<Hostile COMMA A_POCS>, false)
CFG_I(i10, "ind-moveonly", MoveOnly, SimAlloc<MoveOnly COMMA 0>, true)
CFG_I(i11, "ind-moveonly-pocma", MoveOnly, SimAlloc<MoveOnly COMMA A_POCMA>, false)
#elif CFG == 6
CFG_I(i12, "ind-copyonly", CopyOnly, SimAlloc<CopyOnly COMMA 0>, false)
CFG_I(i13, "ind-nodefault-soccc", NoDefault, SimAlloc<NoDefault COMMA A_SOCCC>, false)
CFG_I(i14, "ind-lessonly", LessOnly, SimAlloc<LessOnly COMMA 0>, true)
#elif CFG == 7
CFG_I(i15, "ind-partial-pocca", Partial, SimAlloc<Partial COMMA A_POCCA>, true)
CFG_I(i16, "ind-greedy-pocca", Greedy, SimAlloc<Greedy COMMA A_POCCA>, false)
CFG_I(i23, "ind-weak-pocs", Weak, SimAlloc<Weak COMMA A_POCS>, true)
CFG_I(i17, "ind-voidassign", VoidAssign, SimAlloc<VoidAssign COMMA 0>, false)
#elif CFG == 8
CFG_I(i18, "ind-basic-min", Basic, MinAlloc<Basic>, false)
CFG_I(i19, "ind-nxmove-final", NxMove, FinalAlloc<NxMove>, false)
#if SIM_CXX20
CFG_I(i20, "ind-basic-fancy-pocca-pocs", Basic, FancyAlloc<Basic COMMA A_POCCA | A_POCS>, false)
#endif
#elif CFG == 9
CFG_P(p0, "poly-base", Base, SimAlloc<Base COMMA 0>, false, ALLT)
#elif CFG == 10
CFG_P(p1, "poly-base-pocca", Base, SimAlloc<Base COMMA A_POCCA>, false, DSmall, DBig, DMulti, DVirt)
CFG_P(p2, "poly-base-pocma", Base, SimAlloc<Base COMMA A_POCMA>, false, DSmall, DMulti, DHost, DCopyOnly)
#elif CFG == 11
CFG_P(p3, "poly-base-pocs", Base, SimAlloc<Base COMMA A_POCS>, false, DSmall, DBig, DTwo, DVirt)
CFG_P(p4, "poly-base-allp", Base, SimAlloc<Base COMMA ALLP>, false, DMulti, DVirt, DHost, DCopyOnly)
#elif CFG == 12
CFG_P(p5, "poly-base-iae", Base, SimAlloc<Base COMMA A_IAE>, false, DSmall, DBig, DVirt, DHost)
CFG_P(p6, "poly-base-iae-allp-soccc", Base, SimAlloc<Base COMMA A_IAE | ALLP | A_SOCCC>, false, DMulti, DTwo, DCopyOnly)
#elif CFG == 13
CFG_P(p7, "poly-base-soccc-nodef", Base, SimAlloc<Base COMMA A_SOCCC | A_NODEF>, false, DSmall, DMulti, DTwo, DCopyOnly)
CFG_P(p8, "poly-base-min", Base, MinAlloc<Base>, false, DSmall, DBig, DMulti, DVirt)
#elif CFG == 14
CFG_P(p14, "poly-huge-pocca-pocs", Base, SimAlloc<Base COMMA A_POCCA | A_POCS>, false, DHuge, DMulti)
CFG_P(p9, "poly-base-final", Base, FinalAlloc<Base>, false, DSmall, DVirt, DHost)
#elif CFG == 15
CFG_P(p10, "poly-concrete", CBase, SimAlloc<CBase COMMA 0>, true, CBase, CDer)
CFG_P(p11, "poly-concrete-pocca-pocma-soccc", CBase, SimAlloc<CBase COMMA A_POCCA | A_POCMA | A_SOCCC>, true, CBase, CDer)
#elif CFG == 16
CFG_N(n0, "nest-ind", NestI, 0)
CFG_N(n1, "nest-ind-pocca", NestI, A_POCCA)
CFG_N(n2, "nest-ind-pocma", NestI, A_POCMA)
#elif CFG == 17
CFG_N(n3, "nest-ind-allp", NestI, ALLP)
CFG_N(n4, "nest-ind-iae-pocma", NestI, A_IAE | A_POCMA)
CFG_N(n5, "nest-ind-soccc-pocca-pocma", NestI, A_SOCCC | A_POCCA | A_POCMA)
#elif CFG == 18
CFG_N(n6, "nest-poly", NestP, 0)
CFG_N(n7, "nest-poly-pocca", NestP, A_POCCA)
CFG_N(n8, "nest-poly-pocma", NestP, A_POCMA)
#elif CFG == 19
CFG_N(n9, "nest-poly-allp", NestP, ALLP)
CFG_N(n10, "nest-poly-iae-pocma", NestP, A_IAE | A_POCMA)
CFG_N(n11, "nest-poly-soccc-pocca-pocma", NestP, A_SOCCC | A_POCCA | A_POCMA)
#elif CFG == 20
CFG_C(k0, "comp-ind", RealI, 0)
#elif CFG == 21
CFG_C(k1, "comp-ind-pocs", RealI, A_POCS)
#elif CFG == 22
CFG_C(k2, "comp-ind-allp", RealI, ALLP)
#elif CFG == 23
CFG_C(k3, "comp-ind-iae", RealI, A_IAE | A_POCCA)
#elif CFG == 24
CFG_C(k4, "comp-poly", RealP, 0)
#elif CFG == 25
CFG_C(k5, "comp-poly-pocs", RealP, A_POCS)
#elif CFG == 26
CFG_C(k6, "comp-poly-allp", RealP, ALLP)
#elif CFG == 27
CFG_C(k7, "comp-poly-iae", RealP, A_IAE | A_POCCA)
#elif CFG == 28
CFG_I(i21, "ind-strict", NxMove, SimAlloc<NxMove COMMA A_STRICT>, false)
CFG_I(i22, "ind-strict-pocs", Basic, SimAlloc<Basic COMMA A_STRICT | A_POCS | A_SOCCC | A_NODEF>, false)
#elif CFG == 29
CFG_P(p12, "poly-strict", Base, SimAlloc<Base COMMA A_STRICT>, false, DSmall, DVirt)
CFG_P(p13, "poly-strict-pocs", Base, SimAlloc<Base COMMA A_STRICT | A_POCS | A_SOCCC | A_NODEF>, false, DMulti, DBig)
#elif CFG == 30
CFG_X(x0, "plain-int", XI, DInt, 0)
CFG_X(x1, "plain-int-pocca", XI, DInt, A_POCCA)
CFG_X(x2, "plain-i64-allp", XI, DI64, ALLP)
CFG_X(x3, "plain-u64-soccc", XI, DU64, A_SOCCC)
#elif CFG == 31
CFG_X(x4, "plain-dbl", XI, DDbl, 0)
CFG_X(x5, "plain-dbl-pocca-pocma", XI, DDbl, A_POCCA | A_POCMA)
CFG_X(x6, "plain-bool-pocma-nodef", XI, DBool, A_POCMA | A_NODEF)
CFG_X(x7, "plain-enum-pocs", XI, DEnum, A_POCS)
#elif CFG == 32
CFG_X(x8, "plain-fn-allp", XI, DFn, ALLP)
CFG_X(x9, "plain-empty", XI, DEmpty, 0)
CFG_X(x10, "plain-empty-allp", XI, DEmpty, ALLP)
CFG_X(x11, "plain-agg", XI, DAgg, 0)
CFG_X(x12, "plain-agg-pocca-soccc", XI, DAgg, A_POCCA | A_SOCCC)
#elif CFG == 33
CFG_X(x13, "plain-over-pocs", XI, DOver, A_POCS)
CFG_X(x14, "plain-self-pocca", XI, DSelfP, A_POCCA)
CFG_X(x15, "plain-self-iae", XI, DSelfP, A_IAE)
CFG_X(x16, "plain-fixed-pocma-pocs", XI, DFixed, A_POCMA | A_POCS)
CFG_X(x31, "plain-cagg", XI, DCAgg, 0)
CFG_X(x32, "plain-cfin-allp", XI, DCFin, ALLP)
#elif CFG == 34
CFG_X(x17, "plain-str", XI, DStr, 0)
CFG_X(x18, "plain-str-pocca-soccc", XI, DStr, A_POCCA | A_SOCCC)
CFG_X(x19, "plain-vec-allp", XI, DVec, ALLP)
CFG_X(x20, "plain-uptr", XI, DUp, 0)
CFG_X(x21, "plain-uptr-pocma", XI, DUp, A_POCMA)
#elif CFG == 35
CFG_X(x22, "plain-pair", XI, DPair, 0)
CFG_X(x23, "plain-veci-pocca", XI, DVecI, A_POCCA)
CFG_X(x24, "plain-ind-allp", XI, DInd, ALLP)
CFG_X(x25, "plain-ind", XI, DInd, 0)
#elif CFG == 36
CFG_X(x26, "plain-pb", XP, DPB, 0)
CFG_X(x27, "plain-pb-allp", XP, DPB, ALLP)
CFG_X(x28, "plain-eb-pocca", XP, DEB, A_POCCA)
CFG_X(x33, "plain-cb", XP, DCB, 0)
CFG_X(x34, "plain-cb-allp-soccc", XP, DCB, ALLP | A_SOCCC)
#elif CFG == 37
CFG_X(x29, "plain-vb", XP, DVB, 0)
CFG_X(x30, "plain-vb-pocma-pocs-soccc", XP, DVB, A_POCMA | A_POCS | A_SOCCC)
#elif CFG == 38
CFG_X(x35, "plain-scoped-el", XI, DUEl<A_SCOPED>, A_SCOPED)
CFG_X(x36, "plain-scoped-el-allp", XI, DUEl<ALLP>, ALLP | A_SCOPED)
#elif CFG == 39
CFG_X(x37, "plain-scoped-ub", XP, DUB<0>, A_SCOPED)
CFG_X(x38, "plain-scoped-ub-pocca-pocma-iae", XP, DUB<A_POCCA | A_POCMA | A_IAE>, A_POCCA | A_POCMA | A_IAE | A_SCOPED)
#elif CFG == 40 && SIM_CXX20
CFG_X(x39, "plain-pmr-el", XI, DUEl<A_PMR | A_SOCCC>, A_PMR | A_SOCCC)
CFG_X(x40, "plain-pmr-int", XI, DInt, A_PMR | A_SOCCC)
#elif CFG == 41 && SIM_CXX20
CFG_X(x41, "plain-pmr-ub", XP, DUB<A_PMR | A_SOCCC>, A_PMR | A_SOCCC)
#endif
}  // namespace sim
