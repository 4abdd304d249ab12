// Shared layout between the C runtime and the Rust harness (src/rt.rs mirrors it).
#ifndef DSIM_RT_H
#define DSIM_RT_H
#include <stdint.h>
#include <stddef.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32;

#define MAXT 6
#define NFK 24          // fault kinds
#define MAXW 16384
#define MAXS 16384
#define MAXF 2048
#define MAXST 512
#define LOGSZ (1u<<18)

struct sp { u32 idx; u32 val; };

// One simulated execution's input and output; lives in shared memory between worker and child.
struct result {
  u32 status;            // 0 running/died, 1 ok, 2 violation, 3 harness error
  u32 replay;            // in: use W/S/F given below instead of the generator
  u64 seed;              // in
  u32 log_on;            // in
  u32 tid;               // thread that reported
  char cls[64];
  char msg[1024];
  char op[192];          // operation in progress (of the thread that ran last)
  u64 hash;              // schedule/trace hash
  u64 ticks, steps, switches, simtime;
  u64 atomics, allocs, accesses, stale;
  u32 nthreads, strat;
  u32 nW, nS, nF, overflow;
  u32 nST, nontrivial, ops, pad;
  u64 fq[NFK], fi[NFK];
  u64 ST[MAXST];
  u32 W[MAXW];
  struct sp S[MAXS];
  struct sp F[MAXF];
  u32 loglen; u32 pad2;
  char log[LOGSZ];
};
#endif
