// Operation envelope shared by all scenarios.
#ifndef SIM_ENV_H
#define SIM_ENV_H
#include "ops.h"
#include "rt.h"
namespace sim {
extern int g_only_prop;       // property number under check
void op_begin(const Op& o, int idx, bool armFault);
// After the operation: 0 = completed, 1 = failed by the injected fault.
// Reports swallowed, changed and spurious exceptions as violations.
int op_end(bool threw);
void op_caught();              // call inside catch (...)
void stat_op(const Op& o, int outcome, u64 stateKey);
void digest_line(const char* s);
extern bool g_digest;
// Reports a mismatch with the model if it bears on the property under check;
// returns otherwise, and the caller takes over what it observed.
void mismatch(Cls c, bool other, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
// The plan's threads, if it has any (at most max).
bool threaded(int max);
void threads_run(void (*fn)(int));
void nest_run(const ScenInfo& s, const Op* ops, int n, u64 knobs);

// Runs f while another exception is in flight or being handled: operations are
// also executed by destructors and handlers.
struct Elsewhere {};
template <class F> struct AtUnwind {
  F& f;
  ~AtUnwind() { f(); }
};
template <class F> void in_context(int ctx, F f) {
  if (ctx & 2) {
    try { throw Elsewhere(); } catch (Elsewhere&) { in_context(ctx & 1, f); }
  } else if (ctx & 1) {
    try { AtUnwind<F> u{f}; throw Elsewhere(); } catch (Elsewhere&) { }
  } else {
    f();
  }
}
template <class F> int guarded(const Op& o, int idx, bool armFault, F f) {
  op_begin(o, idx, armFault);
  bool threw = false;
  in_context(o.ctx, [&] {
    try {
      f();
    } catch (...) {
      win_end();
      op_caught();
      threw = true;
    }
  });
  win_end();
  return op_end(threw);
}
}  // namespace sim
#endif
